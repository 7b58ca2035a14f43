"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "The reachable object graph survives every collection",
  "Whatever a program does, every object it can reach from its registered roots keeps its identity, its contents, and every reference it holds, across any number of collections of any kind, under every collector. Two references to one object stay references to one object, and a field always reads back what was last written to it.",
  ["programs", "histories", "schedules", "configurations"],
  "Every mutator history (allocation, field writes and reads, root changes, thread arrival and departure, explicit collections of every kind), every object shape and size, on all 16 collector configurations.",
  "The existing programs build a few fixed shapes (lists, trees, quad trees) and count nodes; they never compare contents or identity, and they exercise one history each.",
  ["src/mmc.c", "src/nofl-space.h", "src/pcc.c", "src/copy-space.h", "src/semi.c", "src/bdw.c", "src/large-object-space.h", "src/tracer.h", "src/parallel-tracer.h", "src/serial-tracer.h"],
  [("root enumeration", "src/mmc.c:enqueue_relocatable_roots, src/pcc.c:enqueue_roots"), ("edge tracing and evacuation", "src/mmc.c:trace_one, src/nofl-space.h:nofl_space_evacuate_or_mark_object, src/copy-space.h:copy_space_forward"), ("sweeping", "src/nofl-space.h:nofl_allocator_next_hole")],
  observe=["gc-api.h: gc_allocate, field reads, gc_collect", "embedder callbacks gc_trace_object"])

p("C02", "Fresh memory is aligned, zeroed and not part of anything live",
  "A successful allocation returns memory that is aligned for a word, lies within the heap, overlaps no object the program can still reach, and (for tagged allocations) reads as zero over its whole size. This holds for all sizes, from the smallest object to large objects, and for memory that is being reused after a collection.",
  ["inputs", "histories", "configurations"],
  "Every sequence of allocation sizes and kinds and collections; fresh and recycled memory; every heap placement the operating system may choose.",
  "Tests allocate few sizes, do not look at the memory they get, and run with whatever address layout they get.",
  ["src/nofl-space.h", "src/copy-space.h", "src/semi.c", "src/large-object-space.h", "src/gc-platform-gnu-linux.c", "src/freelist.h", "api/gc-api.h"],
  [("bump allocation and clearing of holes", "src/nofl-space.h:nofl_allocate, nofl_clear_memory"), ("block clearing", "src/copy-space.h:copy_space_clear..., src/semi.c:clear_memory"), ("reservation of aligned address space", "src/gc-platform-gnu-linux.c:gc_platform_reserve_memory")],
  observe=["gc_allocate result"])

p("C03", "Ephemerons keep their value exactly while their key is otherwise alive",
  "As long as an ephemeron's key is reachable other than through that ephemeron's value, the ephemeron yields its key and value unchanged; a full precise collection that finds the key unreachable breaks the ephemeron, after which it yields null, and never half of the pair. An ephemeron never keeps its own key alive, however ephemerons are nested, shared or chained through each other, and an ephemeron explicitly marked dead no longer yields its key.",
  ["programs", "histories", "schedules", "configurations"],
  "Every graph of objects and ephemerons (including cycles of ephemerons through keys and values), every collection kind, serial and parallel tracing.",
  "One test builds one table shape and checks counts, single collector tuning; cyclic key/value dependencies and order of discovery depend on tracing order and schedule.",
  ["src/gc-ephemeron.c", "src/gc-ephemeron-internal.h", "api/gc-ephemeron.h", "src/mmc.c", "src/pcc.c", "src/semi.c"],
  [("pending-ephemeron table and state machine", "src/gc-ephemeron.c:gc_trace_ephemeron, gc_resolve_pending_ephemerons, gc_sweep_pending_ephemerons"), ("resolution when keys are traced", "src/mmc.c:trace_one")],
  observe=["gc_ephemeron_key", "gc_ephemeron_value"])

p("C04", "Ephemeron chains list live members newest first, without loss",
  "Iterating over an ephemeron chain visits exactly its members whose keys are alive, each once, newest first; collections and killed members never drop, duplicate or reorder live ones. A chain keeps its live members alive, and concurrent pushes all take effect.",
  ["histories", "schedules", "configurations"],
  "Every interleaving of pushes, kills, iteration and collections, any number of dead members between live ones.",
  "The test pushes into buckets once and counts; it never checks order or interleaves killing with iteration.",
  ["src/gc-ephemeron.c", "api/gc-ephemeron.h"],
  [("lock-free list push and lazy elision", "src/gc-ephemeron.c:gc_ephemeron_chain_push, ephemeron_list_follow, ephemeron_list_push")],
  observe=["gc_ephemeron_chain_head", "gc_ephemeron_chain_next"])

p("C05", "A finalizer runs once, only for an unreachable object, by priority",
  "A finalizer attached to an object is delivered exactly once, and only after a collection finds the object unreachable; a full precise collection that finds it unreachable delivers it. When delivered, the object, its closure and everything they reach are intact, and an object is delivered at its lowest priority level first and is kept alive for later levels. The embedder is told how many finalizers became ready.",
  ["programs", "histories", "schedules", "configurations"],
  "Every combination of several finalizers per object, several priorities, finalizable objects referring to each other, resurrection, ephemerons keyed on finalizable objects, all collection kinds.",
  "One test attaches one finalizer per object at one priority and counts how many fire.",
  ["src/gc-finalizer.c", "src/gc-finalizer-internal.h", "api/gc-finalizer.h", "src/mmc.c", "src/pcc.c", "src/semi.c", "src/bdw.c"],
  [("finalizer tables by priority", "src/gc-finalizer.c:gc_resolve_finalizers, gc_finalizer_state_pop"), ("resolution between tracing phases", "src/mmc.c:resolve_finalizers, src/pcc.c:resolve_finalizers, src/semi.c:resolve_finalizers")],
  observe=["gc_pop_finalizable", "finalizer callback"])

p("C06", "Minor collections keep everything reachable from old objects",
  "With a generational collector, an object reachable only through references stored into old objects, large or small, survives any sequence of minor collections provided the stores used the write barrier, and everything reachable is kept just as in a major collection. A minor collection examines young objects and remembered old ones, and forgets nothing that a later minor collection needs.",
  ["programs", "histories", "configurations"],
  "Every interleaving of stores into objects of any age and size with minor and major collections, in every generational configuration.",
  "The tests rarely leave an old-to-young reference as the only one, and cannot vary when the store happens relative to collections.",
  ["src/mmc.c", "src/pcc.c", "src/nofl-space.h", "src/field-set.h", "src/large-object-space.h", "api/gc-api.h"],
  [("write barrier and remembered sets", "api/gc-api.h:gc_write_barrier, src/mmc.c:gc_write_barrier_slow, src/pcc.c:gc_write_barrier_slow, src/field-set.h"), ("tracing remembered edges", "src/mmc.c:trace_remembered_edge, src/pcc.c:trace_remembered_edge")],
  observe=["object contents after minor collections"])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")

p("C07", "The world is stopped while the collector works, and restarts after",
  "From the moment the collector reports mutators stopped until it restarts them, no registered active mutator executes; a mutator that is deactivated (running outside the collector's control) neither delays the stop nor resumes collector-visible work before the restart. Mutators may arrive and leave at any time without deadlock or missed stop, and every request to stop ends.",
  ["schedules", "histories", "configurations"],
  "Every interleaving of allocation, safepoints, deactivation, reactivation, thread start and exit with collections triggered by any thread.",
  "Multi-threaded tests run one schedule per run and cannot see a mutator running inside a pause unless it happens to crash.",
  ["src/mmc.c", "src/pcc.c", "api/gc-api.h", "api/gc-inline.h"],
  [("stop request, counting and waiting", "src/mmc.c:request_mutators_to_stop, wait_for_mutators_to_stop, pause_mutator_for_collection, src/pcc.c likewise"), ("activation state", "src/mmc.c:gc_deactivate, gc_reactivate, gc_call_without_gc"), ("registration", "src/mmc.c:add_mutator, remove_mutator")],
  observe=["event listener", "gc_safepoint", "gc_call_without_gc"])

p("C08", "Event listeners see every collection's phases in order, exactly once",
  "For every collection a listener is told, once each and in order, of the stop request, the wait, the stop, the preparation with the kind that is really performed, the tracing of roots, heap, ephemerons and finalizers, and the restart; the live data size is reported once. Each mutator's own events (added, causing, stopping, stopped, restarted, removed) alternate correctly, and nothing of a mutator is reported between the stop and the restart.",
  ["histories", "schedules", "configurations"],
  "Every collection of every kind in every collector, with any number of mutators.",
  "Tests use the stock listeners, which only print aggregate statistics.",
  ["api/gc-event-listener.h", "api/gc-event-listener-chain.h", "api/gc-basic-stats.h", "src/mmc.c", "src/pcc.c", "src/semi.c", "src/bdw.c"],
  [("HEAP_EVENT and MUTATOR_EVENT calls in collect", "src/mmc.c:collect, src/pcc.c:collect, src/semi.c:collect")],
  observe=["struct gc_event_listener"])

p("C09", "An explicit collection request is honoured before it returns",
  "A request for a collection returns only after at least one collection has happened that began after the request and is of the requested kind or does at least as much; a collector that cannot perform a kind performs a stronger one. The kind reported to listeners is the kind performed.",
  ["inputs", "histories", "schedules", "configurations"],
  "Every requested kind in every heap state, with several mutators requesting or allocating at once.",
  "Only a few requests of few kinds are made in tests, none is checked.",
  ["src/mmc.c", "src/pcc.c", "src/semi.c", "src/bdw.c", "api/gc-collection-kind.h"],
  [("kind determination", "src/mmc.c:determine_collection_kind, src/pcc.c:determine_collection_kind"), ("request loop", "src/mmc.c:trigger_collection, src/pcc.c:trigger_collection")],
  observe=["gc_collect", "prepare_gc event"])

p("C10", "Unreachable memory is reclaimed and reused",
  "A full precise collection traces exactly what is reachable, nothing more, and the memory of everything else becomes available again: a program whose reachable data stays within a fixed bound runs forever in a heap of suitable fixed size, whatever it allocates and drops. Collections do not leak blocks, pages or large objects.",
  ["programs", "histories", "configurations"],
  "Unbounded churn with bounded live data, all object sizes, all collection kinds, all collectors.",
  "Tests are short and have heaps several times the live size; slow leaks and inexact tracing go unnoticed.",
  ["src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h", "src/semi.c", "src/mmc.c", "src/pcc.c"],
  [("sweep and block lists", "src/nofl-space.h:nofl_space_finish_gc, nofl_allocator_acquire_..."), ("flip", "src/copy-space.h:copy_space_flip, src/semi.c:flip"), ("large object sweep", "src/large-object-space.h:large_object_space_sweep_one")],
  observe=["gc_trace_object calls", "allocation success"])

p("C12", "Pinned and ambiguously referenced objects do not move",
  "An object that has been pinned keeps its address for as long as it is alive, through compacting collections too, and so does an object to which a conservatively scanned root refers; pinning never changes what an object keeps alive or how it is traced. Everything that refers to it stays correct while other objects around it move.",
  ["programs", "histories", "configurations"],
  "Every mix of pinned and movable objects of any kind, age and size, with compacting, major and minor collections.",
  "No test pins an object; conservative configurations are never checked for addresses.",
  ["src/nofl-space.h", "src/mmc.c", "api/gc-api.h"],
  [("pinned bit and in-place marking", "src/nofl-space.h:nofl_space_pin_object, nofl_space_should_evacuate, nofl_metadata_byte_..."), ("pinned roots traced first", "src/mmc.c:enqueue_pinned_roots")],
  observe=["addresses of pinned objects", "forwarding callbacks"])
P.sort(key=lambda x: x["id"])
if __name__ == "__main__":
    import importlib, sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import gen_properties2 as g2
        g2.add(p)
    except ImportError:
        pass
    P.sort(key=lambda x: x["id"])
    with open(json_path, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
