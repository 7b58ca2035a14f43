// Embedder for the heap-conformance driver.  Everything the collector tells
// the embedder (which objects it traces, which it forwards, when it brackets
// the external space) is counted here, per abstract object id, so that the
// counts can be checked against the TLA+ heap specification.
#ifndef VH_EMBEDDER_H
#define VH_EMBEDDER_H

#include <sched.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include "gc-config.h"
#include "gc-embedder-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"

enum vh_kind {
  VK_NODE = 1,   // fields + payload
  VK_LEAF,       // pointerless
  VK_LIST,       // cell of a chain
  VK_VEC,        // vector of many element edges
  VK_VLEAF,      // element of a vector
  VK_EPH,
  VK_FIN,
  VK_EXT,        // external-space object
  VK_GARBAGE,
  VK_TREE,       // node of a binary tree
  VK_MINI,       // one granule: the header, and a field (index 1) or a payload word (index 0)
};

// Tag word: bit 0: not forwarded.  bits 1-7: kind.  bits 8-31: abstract id.
// bits 32-63: index of the node in its abstract object.  0: busy.
struct gc_header { uintptr_t tag; };
#define GC_EMBEDDER_EPHEMERON_HEADER struct gc_header header;
#define GC_EMBEDDER_FINALIZER_HEADER struct gc_header header;

static inline uintptr_t vh_tag(unsigned kind, unsigned id, unsigned idx) {
  return 1 | ((uintptr_t)kind << 1) | ((uintptr_t)id << 8) | ((uintptr_t)idx << 32);
}
static inline unsigned vh_tag_kind(uintptr_t tag) { return (tag >> 1) & 0x7f; }
static inline unsigned vh_tag_id(uintptr_t tag) { return (tag >> 8) & 0xffffff; }
static inline unsigned vh_tag_idx(uintptr_t tag) { return tag >> 32; }

struct vh_obj {
  struct gc_header h;
  uint32_t size;        // bytes, multiple of 8
  uint32_t nedges;      // leading words of w[] that are edges
  uint64_t ver;
  uintptr_t w[];        // edges then payload
};

#define VH_MAX_ID 65536
extern _Atomic uint32_t vh_traced[VH_MAX_ID];
extern _Atomic uint32_t vh_forwarded[VH_MAX_ID];
extern _Atomic uint64_t vh_trace_calls, vh_root_calls, vh_heap_root_calls;
extern _Atomic int vh_in_pause;          // between mutators_stopped and restarting
extern _Atomic uint32_t vh_outside_pause; // traces seen outside a pause
extern _Atomic uint32_t vh_busy_headers;  // objects whose header was claimed when they were traced
extern int vh_ext_visit(struct gc_ref ref);
extern void vh_ext_start(int is_minor);
extern void vh_ext_finish(int is_minor);
extern void vh_ext_roots(void (*trace_edge)(struct gc_edge, struct gc_heap*, void*),
                         struct gc_heap *heap, void *trace_data);
extern size_t vh_priorities;

struct gc_mutator_roots { void **slots; int n; };
struct gc_heap_roots { void **(*slot)(int); int n; };

static inline uintptr_t* vh_tag_word(struct gc_ref ref) {
  return &((struct gc_header*)gc_ref_heap_object(ref))->tag;
}

static inline size_t gc_finalizer_priority_count(void) { return 3; }

static inline int
gc_is_valid_conservative_ref_displacement(uintptr_t displacement) {
#if GC_CONSERVATIVE_ROOTS || GC_CONSERVATIVE_TRACE
  return displacement == 0;
#else
  GC_CRASH();
#endif
}

static inline int gc_extern_space_visit(struct gc_extern_space *space,
                                        struct gc_edge edge,
                                        struct gc_ref ref) {
  return vh_ext_visit(ref);
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *space,
                                            int is_minor_gc) {
  if (space) vh_ext_start(is_minor_gc);
}
static inline void gc_extern_space_finish_gc(struct gc_extern_space *space,
                                             int is_minor_gc) {
  if (space) vh_ext_finish(is_minor_gc);
}

static inline size_t vh_live_size(uintptr_t tag, void *obj) {
  switch (vh_tag_kind(tag)) {
  case VK_EPH: return gc_ephemeron_size();
  case VK_FIN: return gc_finalizer_size();
  case VK_MINI: return 2 * sizeof(uintptr_t);
  default: return ((struct vh_obj*)obj)->size;
  }
}

static inline void gc_trace_object(struct gc_ref ref,
                                   void (*trace_edge)(struct gc_edge edge,
                                                      struct gc_heap *heap,
                                                      void *trace_data),
                                   struct gc_heap *heap,
                                   void *trace_data,
                                   size_t *size) {
#if GC_CONSERVATIVE_TRACE
  GC_CRASH();
#else
  uintptr_t tag = *vh_tag_word(ref);
#if VH_EVACUATION_MAY_FAIL
  // Known finding "busy-header": an object whose evacuation failed is traced
  // while another tracer, too late, has its forwarding word.
  if (GC_UNLIKELY(!tag)) {
    atomic_fetch_add_explicit(&vh_busy_headers, 1, memory_order_relaxed);
    do {
      sched_yield();
      tag = atomic_load_explicit(vh_tag_word(ref), memory_order_acquire);
    } while (!tag);
  }
#endif
  if (GC_UNLIKELY(!(tag & 1))) GC_CRASH();
  void *p = gc_ref_heap_object(ref);
  if (trace_edge) {
    unsigned kind = vh_tag_kind(tag);
    atomic_fetch_add_explicit(&vh_traced[vh_tag_id(tag) & (VH_MAX_ID - 1)], 1,
                              memory_order_relaxed);
    if (GC_UNLIKELY(!atomic_load_explicit(&vh_in_pause, memory_order_relaxed)))
      atomic_fetch_add_explicit(&vh_outside_pause, 1, memory_order_relaxed);
    switch (kind) {
    case VK_EPH:
      gc_trace_ephemeron(p, trace_edge, heap, trace_data);
      break;
    case VK_FIN:
      gc_trace_finalizer(p, trace_edge, heap, trace_data);
      break;
    case VK_NODE: case VK_LIST: case VK_VEC: case VK_VLEAF: case VK_EXT:
    case VK_GARBAGE: case VK_TREE: case VK_LEAF: {
      struct vh_obj *o = p;
      for (uint32_t i = 0; i < o->nedges; i++)
        trace_edge(gc_edge(&o->w[i]), heap, trace_data);
      break;
    }
    case VK_MINI:
      if (vh_tag_idx(tag)) trace_edge(gc_edge((uintptr_t*)p + 1), heap, trace_data);
      break;
    default:
      GC_CRASH();
    }
  }
  if (size)
    *size = vh_live_size(tag, p);
#endif
}

static inline void gc_trace_mutator_roots(struct gc_mutator_roots *roots,
                                          void (*trace_edge)(struct gc_edge edge,
                                                             struct gc_heap *heap,
                                                             void *trace_data),
                                          struct gc_heap *heap,
                                          void *trace_data) {
  atomic_fetch_add_explicit(&vh_root_calls, 1, memory_order_relaxed);
  if (roots)
    for (int i = 0; i < roots->n; i++)
      trace_edge(gc_edge(&roots->slots[i]), heap, trace_data);
}

static inline void gc_trace_heap_roots(struct gc_heap_roots *roots,
                                       void (*trace_edge)(struct gc_edge edge,
                                                          struct gc_heap *heap,
                                                          void *trace_data),
                                       struct gc_heap *heap,
                                       void *trace_data) {
  atomic_fetch_add_explicit(&vh_heap_root_calls, 1, memory_order_relaxed);
  if (roots)
    for (int i = 0; i < roots->n; i++)
      trace_edge(gc_edge(roots->slot(i)), heap, trace_data);
  if (roots) vh_ext_roots(trace_edge, heap, trace_data);
}

static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  uintptr_t tag = *vh_tag_word(ref);
  return (tag & 1) ? 0 : tag;
}

static inline void vh_count_forward(uintptr_t tag) {
  atomic_fetch_add_explicit(&vh_forwarded[vh_tag_id(tag) & (VH_MAX_ID - 1)], 1,
                            memory_order_relaxed);
}

static inline void gc_object_forward_nonatomic(struct gc_ref ref,
                                               struct gc_ref new_ref) {
  vh_count_forward(*vh_tag_word(ref));
  *vh_tag_word(ref) = gc_ref_value(new_ref);
}

static inline struct gc_atomic_forward
gc_atomic_forward_begin(struct gc_ref ref) {
  uintptr_t tag = atomic_load_explicit(vh_tag_word(ref), memory_order_acquire);
  enum gc_forwarding_state state;
  if (tag == 0)
    state = GC_FORWARDING_STATE_BUSY;
  else if (tag & 1)
    state = GC_FORWARDING_STATE_NOT_FORWARDED;
  else
    state = GC_FORWARDING_STATE_FORWARDED;
  return (struct gc_atomic_forward){ ref, tag, state };
}

static inline int
gc_atomic_forward_retry_busy(struct gc_atomic_forward *fwd) {
  uintptr_t tag = atomic_load_explicit(vh_tag_word(fwd->ref),
                                       memory_order_acquire);
  if (tag == 0)
    return 0;
  fwd->state = (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED
                         : GC_FORWARDING_STATE_FORWARDED;
  fwd->data = tag;
  return 1;
}

static inline void
gc_atomic_forward_acquire(struct gc_atomic_forward *fwd) {
  if (atomic_compare_exchange_strong(vh_tag_word(fwd->ref), &fwd->data, 0))
    fwd->state = GC_FORWARDING_STATE_ACQUIRED;
  else if (fwd->data == 0)
    fwd->state = GC_FORWARDING_STATE_BUSY;
  else
    fwd->state = (fwd->data & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED
                                 : GC_FORWARDING_STATE_FORWARDED;
}

static inline void
gc_atomic_forward_abort(struct gc_atomic_forward *fwd) {
  atomic_store_explicit(vh_tag_word(fwd->ref), fwd->data, memory_order_release);
  fwd->state = GC_FORWARDING_STATE_NOT_FORWARDED;
}

static inline size_t
gc_atomic_forward_object_size(struct gc_atomic_forward *fwd) {
  return vh_live_size(fwd->data, gc_ref_heap_object(fwd->ref));
}

static inline void
gc_atomic_forward_commit(struct gc_atomic_forward *fwd, struct gc_ref new_ref) {
  *vh_tag_word(new_ref) = fwd->data;
  vh_count_forward(fwd->data);
  atomic_store_explicit(vh_tag_word(fwd->ref), gc_ref_value(new_ref),
                        memory_order_release);
  fwd->state = GC_FORWARDING_STATE_FORWARDED;
}

static inline uintptr_t
gc_atomic_forward_address(struct gc_atomic_forward *fwd) {
  return fwd->data;
}

#endif // VH_EMBEDDER_H
