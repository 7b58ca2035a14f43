"""More properties (see gen_properties.py)."""


def add(p):
    p("C11", "A fixed heap keeps its bound and is used before it is declared full",
      "With a fixed heap size, the heap never holds more data than its size, and a program that always leaves room (its live data, with the collector's copy reserve where it has one, stays below about three quarters of what can be used) is never told that it is out of space, nor made to wait forever, however its allocations, large and small, and its collections, of any kind and on several threads, fall. A program that does exceed the heap is told so and does not hang.",
      ["histories", "schedules", "configurations"],
      "Every history of allocations and releases of objects small and large, pinned and not, of explicit and automatic collections, by several threads, in every collector, near the limit of a fixed heap.",
      "Tests use heaps with ample room; whether a near-full heap still yields space depends on what the previous collections were and did.",
      ["src/mmc.c", "src/pcc.c", "src/semi.c", "src/nofl-space.h", "src/copy-space.h", "src/large-object-space.h"],
      [("detecting that the heap is full", "src/mmc.c:detect_out_of_memory, src/pcc.c:collect, src/semi.c:collect_for_alloc"), ("block budget", "src/nofl-space.h:nofl_space_finish_gc, nofl_space_maybe_reacquire_memory; src/copy-space.h:copy_space_page_out_blocks_until_memory_released; src/large-object-space.h")],
      observe=["out-of-memory reports", "live data", "progress"])
    p("C13", "Parallel tracing is complete and terminates under every schedule",
      "However the collector's worker threads interleave while sharing work, each tracing phase ends, and ends only once every object reachable from what it was given has been visited; no work is lost between the phases of one collection (roots, heap, ephemerons, finalizers) or between workers.",
      ["schedules", "histories", "configurations"],
      "Every interleaving of up to four tracing threads with each other and with mutators that are coming to a stop, for every object graph, including work that is found while threads are going idle and phases that only trace roots.",
      "A test run exercises one schedule, on which lost work shows only if the lost object is used later; termination races need a preemption at one instruction.",
      ["src/parallel-tracer.h", "src/shared-worklist.h", "src/local-worklist.h", "src/root-worklist.h", "src/mmc.c", "src/pcc.c"],
      [("work stealing and termination detection", "src/parallel-tracer.h:trace_worker_steal, trace_worker_should_continue, trace_worker_trace, tracer_trace"), ("deque", "src/shared-worklist.h")],
      observe=["object contents after a collection", "gc_trace_object calls", "progress"])
    p("C14", "An object that moves is copied exactly once and every reference follows",
      "When a collection moves an object, there is exactly one new copy, whatever number of threads find the object at the same time and even when copying fails half-way for lack of memory; all references, roots, ephemerons, finalizers and remembered fields are updated to that copy, and a reader never sees a half-copied object or a forwarding word.",
      ["schedules", "histories", "configurations"],
      "Every race of several tracing threads for one object, with successful and failing evacuation, objects of every size, in pcc, generational pcc and compacting mmc.",
      "Two threads reaching the same object between claiming and committing is rare, and a duplicated object only shows when identity is compared.",
      ["api/gc-forwarding.h", "api/mmc-attrs.h", "api/pcc-attrs.h", "src/copy-space.h", "src/nofl-space.h"],
      [("claim, commit, abort", "embedder gc_atomic_forward_*; src/copy-space.h:copy_space_forward_if_traced..., src/nofl-space.h:nofl_space_evacuate")],
      observe=["object identity and contents"])
    p("C16", "The heap's size follows the sizing policy and the statistics are true",
      "A fixed heap is never resized. A growable heap never shrinks and, after a collection (two for the semi-space collector), is at least the multiplier times the live data. An adaptive heap stays between the least and the greatest multiple of the live data that its policy allows, and always leaves a few megabytes of room. A program is never told that a growable or adaptive heap is out of space, however tight the policy and however large the object; the heap is never resized below its live data. The size events tell these sizes; the live-data-size event is never less than what certainly is live (mmc: what was live at the collection before, up to a block per thread), and the allocation counter never goes backwards and includes what was allocated (up to a buffer per thread; for the semi-space collector, as of the last collection).",
      ["histories", "schedules", "configurations"],
      "Every history of growth and shrinkage of live data, by one or several threads, with every policy, multiplier and collector.",
      "Tests do not look at the size of the heap, and run with a single policy each.",
      ["src/heap-sizer.h", "src/growable-heap-sizer.h", "src/adaptive-heap-sizer.h", "src/mmc.c", "src/pcc.c", "src/semi.c"],
      [("sizers", "src/growable-heap-sizer.h, src/adaptive-heap-sizer.h, src/heap-sizer.h:gc_heap_sizer_on_gc"), ("live data and allocation", "src/mmc.c:collect, src/pcc.c:collect, src/semi.c:collect, nofl_space_add_to_allocation_counter, copy_space_add_to_allocation_counter")],
      observe=["gc_event_listener heap_resized and live_data_size", "gc_allocation_counter", "out-of-memory reports"])
    p("C21", "The collector's containers answer as the sets and maps they stand for",
      "After any history of insertions, removals, unions and clearings, the address map and address set contain exactly the keys last put in, with the last value, however keys collide; the splay tree finds exactly the span a key falls in and its predecessor; an extents table covers exactly the ranges adjoined to it. No operation fails to terminate.",
      ["inputs", "histories"],
      "Every sequence of operations over keys chosen to collide, wrap around the table and fill it, and over adjacent and distant spans.",
      "No test exercises these containers directly; the collectors use them with few and well-spread addresses.",
      ["src/address-map.h", "src/address-set.h", "src/address-hash.h", "src/splay-tree.h", "src/extents.h"],
      [("Robin Hood hashing with backward-shift deletion", "src/address-map.h:hash_map_insert..., src/address-set.h"), ("splaying", "src/splay-tree.h"), ("adjoining", "src/extents.h:extents_adjoin")],
      observe=["lookups and iterations"])
    p("C22", "Work handed between tracers is obtained exactly once",
      "Whatever is pushed to a work list is taken by exactly one consumer, with the value that was pushed, whatever pushes, pops and steals overlap and however often the list grows; a consumer is told that a list is empty only if it was empty at some moment during its call, and sizes and emptiness read by the owner are right. This holds for the work-stealing deque, the local and simple work lists and the root work list.",
      ["schedules", "histories", "inputs"],
      "Every interleaving of one owner and several thieves on the deque (including stores that become visible late), of several poppers of the root list, and every sequence of operations on the single-threaded lists, at every capacity and across growth and index wrap-around.",
      "No test exercises the work lists directly, and in the programs they rarely hold few enough elements for owner and thieves to meet.",
      ["src/shared-worklist.h", "src/local-worklist.h", "src/root-worklist.h", "src/simple-worklist.h"],
      [("Chase-Lev deque", "src/shared-worklist.h:shared_worklist_push, shared_worklist_try_pop, shared_worklist_steal, shared_worklist_grow"), ("ring buffer", "src/local-worklist.h"), ("growing arrays", "src/root-worklist.h, src/simple-worklist.h")],
      observe=["results of the operations"])
    p("C23", "The remembered set visits each remembered field exactly once",
      "A field that several threads log is remembered once; a minor collection shows each remembered field to its visitor exactly once, whichever worker takes it, and keeps exactly those that the visitor wants kept, in addition to those that tracing adds meanwhile; a major collection forgets all of them. Nothing is lost when buffers fill or when a thread ends.",
      ["schedules", "histories"],
      "Every interleaving of logging mutators and of visiting workers that log again, for any number of fields and buffers.",
      "Tests of the generational collectors log few fields from one thread, and a lost one shows only if its target is used after a minor collection.",
      ["src/field-set.h", "src/parallel-tracer.h"],
      [("edge buffers", "src/field-set.h:gc_field_set_writer_add_edge, gc_field_set_release_buffer, gc_field_set_acquire_buffer"), ("visiting", "src/field-set.h:gc_field_set_visit_edge_buffer, gc_field_set_clear")],
      observe=["visited fields"])
    p("C25", "Background tasks run as registered until the thread is stopped",
      "After the background thread has started, every round runs each registered task once, by priority and, within one priority, in order of registration; a task that has been removed never runs again, one that has been added takes part in every later round, and when the thread has been destroyed, nothing runs any more. Starting and destroying it never hang.",
      ["schedules", "histories"],
      "Every interleaving of the background thread with threads that start it, add and remove tasks, and destroy it at any moment.",
      "Whether a task runs at all in a test depends on a timer of one second, and removal happens only when a heap is destroyed.",
      ["src/background-thread.h"],
      [("task list", "src/background-thread.h:gc_background_thread_add_task, gc_background_thread_remove_task, gc_background_thread_run")],
      observe=["task invocations"])
    p("C17", "Options are what they were last validly set to",
      "Each option starts at its documented default. An option set by value, by string or in a name=value list takes exactly the value written (integers in decimal, octal or hexadecimal, sizes with k, m, g or t, decimals with exponents, the names of the policies), provided that the value is of the option's type and in its range; anything else, including a size that does not fit and trailing characters, is refused and changes nothing. A list is applied from left to right up to the first setting that is refused.",
      ["inputs", "histories"],
      "Every sequence of settings by any of the setters, of every option, valid or not, and every string.",
      "The tests pass a handful of well-formed settings, and never look at what came of them.",
      ["src/gc-options.c", "src/gc-options-internal.h", "api/gc-options.h", "src/semi.c", "src/bdw.c"],
      [("parsing", "src/gc-options.c:parse_size, parse_int, parse_double, parse_heap_size_policy, gc_common_options_parse_and_set, gc_options_parse_and_set_many"), ("ranges", "src/gc-options.c:FOR_EACH_INT_GC_OPTION, FOR_EACH_SIZE_GC_OPTION, FOR_EACH_DOUBLE_GC_OPTION, gc_common_option_from_string and setters")],
      observe=["results of the setters", "values of the options"])
    p("C19", "The collector knows which objects are its own, and lives with those that are not",
      "Objects that the embedder manages itself are handed to its extern space and traced as often as it asks for: each full collection visits every reachable external object, traces what it refers to if the extern space wants it traced, and leaves the objects reachable only through it alive; it never moves, copies or marks the external object as its own. The extern space is told of the start, the end and the kind of each collection, once. In a minor collection, the embedder may keep all of its external objects and present their fields as roots.",
      ["histories", "configurations", "schedules"],
      "Every graph in which the collector's objects and external objects refer to each other, under every kind of collection and any number of tracing threads.",
      "The tests' extern space is empty.",
      ["src/pcc.c", "src/semi.c", "src/mmc.c", "api/gc-embedder-api.h"],
      [("visiting external objects", "src/semi.c:visit_external_object, src/pcc.c:do_trace, src/mmc.c:do_trace")],
      observe=["gc_extern_space_visit calls", "contents of objects reachable through external objects"])
    p("C27", "Statistics and listener chains report what happened",
      "A chain of two listeners passes every event to both, once, with the event's argument and with each listener's own data; for events of a mutator this is what that listener returned when the mutator was added. The basic statistics count major and minor collections, attribute all elapsed and processor time to either the program or the collector, record each pause, and keep the current and greatest heap and live data sizes; what is printed is what was recorded. A histogram counts every value once, in the bucket that contains it; its least, greatest, count and percentiles are those of the recorded values to within a bucket.",
      ["inputs", "histories"],
      "Every sequence of events with any times and sizes, and every sequence of recorded values, for several widths and precisions.",
      "Statistics are printed by the benchmarks but not compared to anything, and depend on the clock; no test chains listeners.",
      ["api/gc-basic-stats.h", "api/gc-histogram.h", "api/gc-event-listener-chain.h"],
      [("chain", "api/gc-event-listener-chain.h"), ("statistics", "api/gc-basic-stats.h"), ("histogram", "api/gc-histogram.h:gc_histogram_bucket, gc_histogram_bucket_min_val, name##_percentile")],
      observe=["listener calls", "struct gc_basic_stats and its printed form", "histogram queries"])
    p("C24", "Memory, clock and scans are what the collectors take them for",
      "A reservation is aligned as asked, overlaps nothing else, takes no more address space than its size, and cannot be accessed until memory is acquired in it; acquired memory is at the place asked for and reads as zero, and so does memory that was discarded; populating memory changes nothing, and writing, acquiring, discarding or releasing some pages leaves all others as they were; released memory is gone. The clock is the system's monotonic clock in nanoseconds, the processor count that of the process's affinity, and a thread's stack base the end of its stack. Scanning metadata bytes for a bit or a tag finds the first byte that matches, from any alignment, and nothing before or beyond the limit.",
      ["inputs", "histories"],
      "Every sequence of reservations, acquisitions, discards and releases of any sizes and alignments; every byte string, alignment, limit, mask and tag.",
      "Tests see only that programs do not crash; a wrong alignment, stale page or missed byte shows as rare corruption.",
      ["src/gc-platform-gnu-linux.c", "src/gc-platform.h", "src/swar.h"],
      [("memory", "src/gc-platform-gnu-linux.c:gc_platform_reserve_memory, gc_platform_acquire_memory_from_reservation, gc_platform_acquire_memory, gc_platform_discard_memory, gc_platform_release_memory"), ("clock, processors, stack", "src/gc-platform-gnu-linux.c:gc_platform_monotonic_nanoseconds, gc_platform_processor_count, gc_platform_current_thread_stack_base"), ("scans", "src/swar.h:scan_for_byte_with_bits, scan_for_byte_with_tag, scan_for_byte_with_tags")],
      observe=["addresses, contents and accessibility of pages", "size of the address space", "results of scans"])
