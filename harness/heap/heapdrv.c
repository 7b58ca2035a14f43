// Heap-conformance driver.  Executes a history of abstract heap operations
// (either generated here from a seed, or read from a script written by TLC
// from the TLA+ specification) on a real Whippet collector, and records what
// the collector did as an ndjson trace that TLC then checks against
// spec/HeapTrace.tla.  The driver has no oracle of its own for reachability:
// it only reads objects back and reports what it found.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include "vh-embedder.h"
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
// With the deterministic scheduler (harness/sched), this file is compiled
// without points of its own, so that every operation is atomic but for what
// the collector does in it; that is what -C (mutators run concurrently) needs
// in order to log operations in the order in which they took effect.
#ifdef VSCHED
#include "vsched.h"
#else
#define vs_point() do { } while (0)
#define vs_pause() do { } while (0)
#define vs_resume() do { } while (0)
#endif

#define K 6             // slots per thread
#define MAXT 4
#define NG 6            // globals
#define NC 2            // ephemeron chains (also heap roots)
#define NSLOTS (MAXT * K + NG)
#define PRECISE (GC_PRECISE_ROOTS)

_Atomic uint32_t vh_traced[VH_MAX_ID];
_Atomic uint32_t vh_forwarded[VH_MAX_ID];
_Atomic uint64_t vh_trace_calls, vh_root_calls, vh_heap_root_calls;
_Atomic int vh_in_pause;
_Atomic uint32_t vh_outside_pause, vh_busy_headers;

// ------------------------------------------------------------------ output
static FILE *out;
static long records, max_records = 1000000;
static pthread_mutex_t log_lock = PTHREAD_MUTEX_INITIALIZER;

static void emit(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfprintf(out, fmt, ap);
  va_end(ap);
  fputc('\n', out);
  records++;
}

#ifdef GC_VERIF_FAULTS
// Evacuation fails at random (as it may whenever memory is short).
static unsigned fault_rate; static _Atomic uint64_t fault_n;
static _Thread_local int fault_ok = VH_EVACUATION_MAY_FAIL;
void gc_verif_may_fail_evacuation(int allow) { fault_ok = allow; }
int gc_verif_fail_evacuation(void) {
  if (!fault_rate || !fault_ok) return 0;
  uint64_t z = (atomic_fetch_add(&fault_n, 1) / 7 + 1) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z ^= z >> 31;
  // Now and then everything fails, and otherwise every so often.
  return z % 16 == 0 || (z >> 20) % 5 == 0 && atomic_fetch_add(&fault_n, 1) % fault_rate == 0;
}
#endif

static volatile unsigned cur_op_line;
static void die_bad(const char *why, unsigned id) {
  static _Atomic int dying;
  if (atomic_exchange(&dying, 1)) for (;;) pause();
  fflush(out);
  fprintf(out, "{\"o\":\"bad\",\"why\":\"%s\",\"id\":%u}\n", why, id);
  fflush(out);
  _exit(3);
}
#ifdef VSCHED
static void on_stuck(const char *why) {
  fflush(out);
  fprintf(out, "{\"o\":\"bad\",\"why\":\"%s under this schedule\",\"id\":0}\n", why);
  fflush(out);
  _exit(3);
}
#endif
static void on_crash(int sig) {
  static _Atomic int dying;
  if (atomic_exchange(&dying, 1)) _exit(4);
  char buf[96];
  // stdio state may be inconsistent; flush what is there on a best effort.
  fflush(out);
  int n = snprintf(buf, sizeof buf, "{\"o\":\"crash\",\"sig\":%d}\n", sig);
  if (write(fileno(out), buf, n) < 0) _exit(5);
  _exit(4);
}

// --------------------------------------------------------------------- rng
static uint64_t rng_state;
static uint64_t rnd64(void) {
  uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static unsigned rnd(unsigned n) { return n ? rnd64() % n : 0; }

// ------------------------------------------------------------------- state
static __thread int cur_t;
struct handles { void *volatile v[K]; };
struct thr {
  int live;                  // registered and running
  int busy;                  // from creation to the end
  _Atomic int ready, gone;
  pthread_t pt;
  struct gc_mutator *mut;
  struct handles *h;
  struct gc_mutator_roots roots;
};
static struct thr thrs[MAXT];
// Heap roots, that is globals and chain heads: in initialised and uninitialised
// data of the program, and in a shared library.
static void *Gd[(NG + NC + 2) / 3] __attribute__((section(".data"))), *Gb[(NG + NC + 2) / 3];
extern void **vh_so_slots(void) __attribute__((visibility("default")));
static void **GA(int i) { return &(i % 3 == 0 ? Gd : i % 3 == 1 ? Gb : vh_so_slots())[i / 3]; }
#define G(i) (*GA(i))
static struct gc_heap_roots heap_roots = { GA, NG + NC };
static int no_heap_roots;    // they are only found by conservative scanning
static struct gc_heap *heap;
static _Atomic int turn, done;
static int conc;             // mutators run concurrently
static int idle_mode;        // 0 poll, 1 inactive, 2 random
static unsigned next_id = 1;

// Addresses kept by the driver are complemented, so that they are not seen
// as references by conservative root scanning.
static uint8_t idkind[VH_MAX_ID];
static uint32_t idn[VH_MAX_ID];      // nodes that make up the object
static uint32_t idy[VH_MAX_ID];      // of which allocated since the last GC
static uint64_t idver[VH_MAX_ID];
static uint8_t pinned[VH_MAX_ID], busy[VH_MAX_ID];
static uintptr_t pinaddr[VH_MAX_ID];
static uint64_t alloc_bytes;         // all bytes requested so far
static uint64_t est_live;            // upper estimate of live bytes
static uint64_t live_cap;
static unsigned cur_builds[MAXT];    // id of the bulk object each thread is constructing
#define cur_build cur_builds[cur_t]
static void *volatile tmp_unused;

// References from stacks may point into an object, if roots are conservative.
static uint32_t disp[MAXT * K];
// During calls into the collector, the only reference from a handle may be in
// a callee-saved register: then the handle is null, and its complement here.
static _Atomic uintptr_t hid[MAXT * K];
static void *slotv(int s) {
  if (s >= MAXT * K) return G(s - MAXT * K);
  char *v = thrs[s / K].h->v[s % K];
  uintptr_t h = v ? 0 : atomic_load(&hid[s]);
  if (!v) v = h ? (char*)~h : (char*)thrs[s / K].h->v[s % K];
  return v - disp[s];
}
static void slot_set(int s, void *p) {
  if (s >= MAXT * K) { G(s - MAXT * K) = p; return; }
  disp[s] = 0;
  atomic_store(&hid[s], 0);
  thrs[s / K].h->v[s % K] = p;
}

// hold(~v, f, a, b, c) calls f(a, b, c) with v in a callee-saved register.
// (Not in rbp: glibc's setjmp mangles it, so that it is found only if some
// function of the collector pushes it, as they all happen to do.)
#if !PRECISE && defined __x86_64__
#define HOLD(r) \
  void vh_hold_##r(uintptr_t, void*, uintptr_t, uintptr_t, uintptr_t); \
  __asm__(".text\n.type vh_hold_" #r ",@function\nvh_hold_" #r ":\n" \
          "push %" #r "\nmov %rdi, %" #r "\nnot %" #r "\nmov %rsi, %rax\n" \
          "mov %rdx, %rdi\nmov %rcx, %rsi\nmov %r8, %rdx\ncall *%rax\n" \
          "xor %eax, %eax\npop %" #r "\nret\n.size vh_hold_" #r ", .-vh_hold_" #r "\n");
HOLD(rbx) HOLD(r12) HOLD(r13) HOLD(r14) HOLD(r15)
static void (*const holders[])(uintptr_t, void*, uintptr_t, uintptr_t, uintptr_t) = {
  vh_hold_rbx, vh_hold_r12, vh_hold_r13, vh_hold_r14, vh_hold_r15 };
#define NHOLD 5
#else
#define NHOLD 0
#endif
static int hold_pct;
static void GC_NEVER_INLINE scrub(void) {     // dead copies of references
  volatile char a[4096];
  for (unsigned i = 0; i < sizeof a; i += 8) *(volatile long*)(a + i) = 0;
}
typedef void (*fn3)(uintptr_t, uintptr_t, uintptr_t);
static unsigned long nheld;
static int GC_NEVER_INLINE hide(int s) {
  void *v = thrs[s / K].h->v[s % K];
  if (!v || ((uintptr_t)v & 1)) return 0;
  atomic_store(&hid[s], ~(uintptr_t)v);
  thrs[s / K].h->v[s % K] = NULL;
  return 1;
}
// Call a function of the collector, perhaps with a reference of this thread
// only in a register.
static void GC_NEVER_INLINE hold_call(int t, void *f, uintptr_t a, uintptr_t b, uintptr_t c) {
#if NHOLD
  static __thread unsigned rng;
  rng = rng * 1103515245u + 12345u + t;
  unsigned r = (rng >> 12) & 0xfffff;
  if (hold_pct && (int)(r % 100) < hold_pct) {
    int s = t * K + r / 100 % K;
    if (hide(s)) {
      scrub();
      nheld++;
      holders[r / 1000 % NHOLD](atomic_load(&hid[s]), f, a, b, c);
      uintptr_t h = atomic_load(&hid[s]);
      if (h) { thrs[s / K].h->v[s % K] = (void*)~h; atomic_store(&hid[s], 0); }
      return;
    }
  }
#endif
  ((fn3)f)(a, b, c);
}

// ------------------------------------------------------------ event stream
enum { EV_INIT = 1, EV_REQ, EV_WAIT, EV_STOPPED, EV_PREPARE, EV_ROOTS, EV_HEAP,
       EV_EPH, EV_FIN, EV_RESTART,
       EV_M_ADDED = 20, EV_M_CAUSE, EV_M_STOPPING, EV_M_STOPPED, EV_M_RESTARTED,
       EV_M_REMOVED, EV_RESIZED = 30, EV_LIVE = 31 };
#define MAXEV 8192
static int evs[MAXEV];
static int nev;
static pthread_mutex_t ev_lock = PTHREAD_MUTEX_INITIALIZER;
static int last_kind;
static uint64_t last_live, last_resize, init_size;
static _Atomic int fin_cb_count, fin_cb_calls;
static int ext_starts, ext_finishes, ext_minor;
static long ngc;
static unsigned mut_ids;

static void ev(int code) {
  pthread_mutex_lock(&ev_lock);
  if (nev < MAXEV) evs[nev++] = code;
  pthread_mutex_unlock(&ev_lock);
}

static const char* kind_name(int k) {
  switch (k) {
  case GC_COLLECTION_ANY: return "any";
  case GC_COLLECTION_MINOR: return "minor";
  case GC_COLLECTION_MAJOR: return "major";
  case GC_COLLECTION_COMPACTING: return "compacting";
  default: return "bogus";
  }
}

static void emit_grow(unsigned id) {
  emit("{\"o\":\"grow\",\"id\":%u,\"n\":%u,\"y\":%u}", id, idn[id], idy[id]);
}

static void emit_gc(void) {
  pthread_mutex_lock(&log_lock);
  for (int t = 0; t < MAXT; t++)
    if (cur_builds[t])
      emit_grow(cur_builds[t]);
  fprintf(out, "{\"o\":\"gc\",\"k\":\"%s\",\"tr\":[", kind_name(last_kind));
  int first = 1;
  for (unsigned i = 1; i < next_id; i++)
    if (vh_traced[i]) {
      fprintf(out, "%s[%u,%u,%u]", first ? "" : ",", i, vh_traced[i], vh_forwarded[i]);
      first = 0;
    }
  fprintf(out, "],\"fx\":[");   // forwarded but never traced
  first = 1;
  for (unsigned i = 1; i < next_id; i++)
    if (!vh_traced[i] && vh_forwarded[i]) {
      fprintf(out, "%s[%u,%u]", first ? "" : ",", i, vh_forwarded[i]);
      first = 0;
    }
  for (unsigned i = 0; i < VH_MAX_ID; i++) {
    vh_traced[i] = vh_forwarded[i] = 0;
    idy[i] = 0;
  }
  fprintf(out, "],\"fin\":%d,\"finc\":%d,\"live\":%lu,\"xs\":%d,\"xf\":%d,\"xm\":%d,\"op\":%u,\"tot\":%lu,\"ev\":[",
          fin_cb_count, fin_cb_calls, (unsigned long)last_live, ext_starts, ext_finishes,
          ext_minor, vh_outside_pause, (unsigned long)(alloc_bytes >> 10));
  pthread_mutex_lock(&ev_lock);
  for (int i = 0; i < nev; i++)
    fprintf(out, "%s%d", i ? "," : "", evs[i]);
  nev = 0;
  pthread_mutex_unlock(&ev_lock);
  fprintf(out, "]}\n");
  records++;
  ngc++;
  fin_cb_count = fin_cb_calls = 0;
  ext_starts = ext_finishes = 0;
  pthread_mutex_unlock(&log_lock);
}

static void l_init(void *d, size_t s) { init_size = s; }
static void l_req(void *d) { ev(EV_REQ); }
static void l_wait(void *d) { ev(EV_WAIT); }
static void l_stopped(void *d) { ev(EV_STOPPED); vh_in_pause = 1; }
static void l_prepare(void *d, enum gc_collection_kind k) { ev(EV_PREPARE); last_kind = k; }
static void l_roots(void *d) { ev(EV_ROOTS); }
static void l_heap(void *d) { ev(EV_HEAP); }
static void l_eph(void *d) { ev(EV_EPH); }
static void l_fin(void *d) { ev(EV_FIN); }
static void l_restart(void *d) { ev(EV_RESTART); vh_in_pause = 0; emit_gc(); }
static void* l_added(void *d) {
  pthread_mutex_lock(&ev_lock);
  unsigned id = ++mut_ids;
  if (nev < MAXEV) evs[nev++] = EV_M_ADDED + 100 * id;
  pthread_mutex_unlock(&ev_lock);
  return (void*)(uintptr_t)id;
}
#define MEV(fn, code) static void fn(void *d) { ev(code + 100 * (int)(uintptr_t)d); }
MEV(l_cause, EV_M_CAUSE) MEV(l_stopping, EV_M_STOPPING) MEV(l_mstopped, EV_M_STOPPED)
MEV(l_restarted, EV_M_RESTARTED) MEV(l_removed, EV_M_REMOVED)
static void l_resized(void *d, size_t s) { last_resize = s; ev(EV_RESIZED); }
static void l_live(void *d, size_t s) { last_live = s; ev(EV_LIVE); }

static const struct gc_event_listener listener = {
  l_init, l_req, l_wait, l_stopped, l_prepare, l_roots, l_heap, l_eph, l_fin,
  l_restart, l_added, l_cause, l_stopping, l_mstopped, l_restarted, l_removed,
  l_resized, l_live
};

static void have_finalizers(struct gc_heap *h, size_t count) {
  fin_cb_count += count;
  fin_cb_calls++;
}

// ---------------------------------------------------------- external space
struct ext { struct ext *next; _Atomic int marked; int dead; unsigned id; struct vh_obj *o; };
static struct ext *exts;
static int ext_enabled;
struct gc_extern_space { int dummy; };
static struct gc_extern_space ext_space;

static struct ext* ext_of(struct gc_ref ref) {
  return *(struct ext**)(gc_ref_value(ref) - 16);
}
int vh_ext_visit(struct gc_ref ref) {
  // The object carries a pointer back to its record; refuse anything that is
  // not one of ours, so that a wild reference is reported and not followed.
  struct ext *e = NULL;
  for (struct ext *x = exts; x; x = x->next)
    if ((uintptr_t)x->o == gc_ref_value(ref)) e = x;
  if (!e || e->dead) die_bad("external space visited with a reference that is not an external object", 0);
  return !atomic_exchange(&e->marked, 1);
}
void vh_ext_start(int is_minor) {
  ext_starts++;
  ext_minor = is_minor;
  // A minor collection keeps all external objects, as roots.
  for (struct ext *x = exts; x; x = x->next) x->marked = is_minor;
}
void vh_ext_roots(void (*trace_edge)(struct gc_edge, struct gc_heap*, void*),
                  struct gc_heap *heap, void *trace_data) {
  if (!ext_minor) return;
  for (struct ext *x = exts; x; x = x->next)
    if (!x->dead)
      for (unsigned i = 0; i < x->o->nedges; i++)
        trace_edge(gc_edge(&x->o->w[i]), heap, trace_data);
}
void vh_ext_finish(int is_minor) {
  ext_finishes++;
  if (is_minor != ext_minor) die_bad("external space start and finish disagree on kind", 0);
  if (is_minor) return;
  for (struct ext *x = exts; x; x = x->next)
    if (!x->marked && !x->dead) {
      x->dead = 1;
      for (unsigned i = 0; i < x->o->nedges; i++) x->o->w[i] = 8;
      x->o->h.tag = 0xdead0000;
    }
}

// ---------------------------------------------------------------- payloads
static uintptr_t mix(uintptr_t a) {
  a *= 0xff51afd7ed558ccdull; a ^= a >> 29; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 32;
  // Never looks like a heap address (bit 62 set), so that conservative
  // tracing does not see payload words as references.
  return a | (1ull << 62) | 1;
}
static uint32_t nwords(struct vh_obj *o) { return (o->size - sizeof(*o)) / 8; }
static void fill_payload(struct vh_obj *o) {
  uintptr_t seed = mix(o->h.tag ^ (o->ver << 20));
  for (uint32_t i = o->nedges; i < nwords(o); i++) o->w[i] = seed + ((uintptr_t)i << 1);
}
static int payload_ok(struct vh_obj *o) {
  uintptr_t seed = mix(o->h.tag ^ (o->ver << 20));
  for (uint32_t i = o->nedges; i < nwords(o); i++)
    if (o->w[i] != seed + ((uintptr_t)i << 1)) return 0;
  return 1;
}

static __thread struct gc_mutator *cur_mut;

static int is_obj(void *p) { return p && !((uintptr_t)p & 7); }
static unsigned id_of(void *p) {
  if (!p) return 0;
  return vh_tag_id(*vh_tag_word(gc_ref((uintptr_t)p)));
}
static unsigned kind_of(void *p) { return vh_tag_kind(*vh_tag_word(gc_ref((uintptr_t)p))); }
// Value of a reference as logged: 0 null, positive id, negative immediate.
static long val_of(void *p) {
  if (!p) return 0;
  if ((uintptr_t)p & 7) return -(long)((uintptr_t)p >> 3);
  return id_of(p);
}
static void* imm(unsigned v) { return (void*)(((uintptr_t)v << 3) | 1); }

static int check_zero = 1;
static void* alloc_raw(size_t size, enum gc_allocation_kind k) {
  void *p = gc_allocate(cur_mut, size, k);
  if (!p) die_bad("allocation returned NULL", 0);
  if ((uintptr_t)p & 7) die_bad("allocation is misaligned", 0);
  alloc_bytes += size;
  return p;
}

static struct vh_obj* alloc_obj(unsigned kind, unsigned id, unsigned idx, size_t size,
                                unsigned nedges) {
  size = (size + 7) & ~7ull;
  int pointerless = kind == VK_LEAF || (kind == VK_GARBAGE && nedges == 0 && (idx & 1));
  struct vh_obj *o = alloc_raw(size, pointerless ? GC_ALLOCATION_TAGGED_POINTERLESS
                                                 : GC_ALLOCATION_TAGGED);
  if (!pointerless && check_zero)
    for (size_t i = 0; i < size / 8; i++)
      if (((uintptr_t*)o)[i]) die_bad("fresh object is not zeroed", id);
  o->h.tag = vh_tag(kind, id, idx);
  o->size = size;
  o->nedges = nedges;
  o->ver = 0;
  for (unsigned i = 0; i < nedges; i++) o->w[i] = 0;
  fill_payload(o);
  return o;
}

// Objects of one granule: the header, and one field or one word of payload.
static void* alloc_mini(unsigned id, unsigned nf) {
  uintptr_t *o = alloc_raw(16, GC_ALLOCATION_TAGGED);
  if (check_zero && (o[0] || o[1])) die_bad("fresh object is not zeroed", id);
  o[0] = vh_tag(VK_MINI, id, nf);
  o[1] = nf ? 0 : mix(o[0]);
  return o;
}

static uintptr_t* edge_of(struct vh_obj *o, unsigned i) {
  return kind_of(o) == VK_MINI ? (uintptr_t*)o + 1 : &o->w[i];
}
static size_t size_of(struct vh_obj *o) { return kind_of(o) == VK_MINI ? 16 : o->size; }

static void set_edge(struct vh_obj *o, unsigned i, void *v) {
  uintptr_t *e = edge_of(o, i);
  if (is_obj(v) && kind_of(o) != VK_EXT)
    gc_write_barrier(cur_mut, gc_ref_from_heap_object(o), size_of(o), gc_edge(e),
                     gc_ref_from_heap_object(v));
  *e = (uintptr_t)v;
}

// Sizes: mostly small, with every size class boundary represented.
static size_t pick_size(unsigned nedges) {
  size_t base = sizeof(struct vh_obj) + 8 * nedges;
  switch (rnd(24)) {
  case 0: case 1: return base + 8 * rnd(64);
  case 2: return base + 8 * rnd(512);
  case 3: { size_t s = 8192 - 8 * rnd(4); return s < base ? base : s; }
  case 4: { size_t s = 8200 + 8 * rnd(2); return s; }
  case 5: return 8192 + 8 * rnd(4096);
  case 6: return rnd(3) ? base : 32768 + 8 * rnd(16384);
  default: return base + 8 * rnd(8);
  }
}

static const char* kname(unsigned k) {
  switch (k) {
  case VK_NODE: return "node"; case VK_LEAF: return "leaf"; case VK_LIST: return "list";
  case VK_VEC: return "vec"; case VK_TREE: return "tree"; case VK_EXT: return "ext";
  case VK_EPH: return "eph"; case VK_FIN: return "fin"; default: return "other";
  }
}

// ------------------------------------------------- reading objects back
// Locate the node that carries the abstract fields; verify everything on the
// way.  Returns the edge slot index of field 0 in *base.
static void check_node(struct vh_obj *o, unsigned kind, unsigned id, unsigned idx) {
  uintptr_t tag = o->h.tag;
  if (tag != vh_tag(kind, id, idx)) die_bad("object header is not the one written", id);
  if (o->size < sizeof(*o) || (o->size & 7)) die_bad("object size field corrupted", id);
  if (o->ver != idver[id]) die_bad("object contents are stale", id);
  if (!payload_ok(o)) die_bad("object contents corrupted", id);
}

static struct vh_obj* fields_of(void *p, unsigned *base, unsigned *nf) {
  struct vh_obj *o = p;
  unsigned kind = kind_of(p), id = id_of(p);
  switch (kind) {
  case VK_NODE: case VK_EXT:
    check_node(o, kind, id, 0);
    *base = 0; *nf = o->nedges;
    return o;
  case VK_LEAF:
    check_node(o, kind, id, 0);
    *base = 0; *nf = 0;
    return o;
  case VK_MINI: {
    uintptr_t tag = o->h.tag;
    if (tag != vh_tag(VK_MINI, id, vh_tag_idx(tag) & 1)) die_bad("object header is not the one written", id);
    *base = 0; *nf = vh_tag_idx(tag);
    if (!*nf && ((uintptr_t*)o)[1] != mix(tag)) die_bad("object contents corrupted", id);
    return o;
  }
  case VK_LIST: {
    uint32_t i = 0;
    while (1) {
      check_node(o, kind, id, i);
      if (!o->w[0]) break;
      if (o->w[1] || o->w[2]) die_bad("interior list cell has fields", id);
      o = (void*)o->w[0];
      i++;
      if (i >= idn[id]) die_bad("list is longer than built", id);
      if (!is_obj(o)) die_bad("list link corrupted", id);
    }
    if (i + 1 != idn[id]) die_bad("list is shorter than built", id);
    *base = 1; *nf = 2;
    return o;
  }
  case VK_VEC: {
    check_node(o, kind, id, 0);
    if (o->nedges + 1 != idn[id]) die_bad("vector length corrupted", id);
    for (uint32_t i = 0; i < o->nedges; i++) {
      if (!o->w[i] || (o->w[i] & 7)) die_bad("vector element lost", id);
      check_node((struct vh_obj*)o->w[i], VK_VLEAF, id, i + 1);
    }
    *base = 0; *nf = 0;
    return o;
  }
  case VK_TREE: {
    struct vh_obj *root = o;
    // Iterative walk; index of node follows heap order.
    struct vh_obj *stack[64];
    int sp = 0;
    uint32_t seen = 0;
    stack[sp++] = o;
    uint32_t expect[64];
    expect[0] = 0;
    while (sp) {
      o = stack[--sp];
      uint32_t ix = expect[sp];
      check_node(o, kind, id, ix);
      if (ix && (o->w[2] || o->w[3])) die_bad("interior tree node has fields", id);
      seen++;
      for (int c = 0; c < 2; c++) {
        uint32_t cx = 2 * ix + 1 + c;
        if (cx < idn[id]) {
          if (!o->w[c] || (o->w[c] & 7)) die_bad("tree child lost", id);
          stack[sp] = (struct vh_obj*)o->w[c];
          expect[sp] = cx;
          sp++;
        } else if (o->w[c]) die_bad("tree has a child it was not given", id);
      }
    }
    if (seen != idn[id]) die_bad("tree size changed", id);
    *base = 2; *nf = 2;
    return root;
  }
  default:
    die_bad("object has unknown kind", id);
  }
  return NULL;
}

// ------------------------------------------------------------------- walks
static uint32_t walk_epoch, walk_seen[VH_MAX_ID];
static uintptr_t walk_addr[VH_MAX_ID];
static uint64_t idbytes[VH_MAX_ID];

static void walk_push(void ***st, int *n, int *cap, void *p) {
  if (!is_obj(p)) return;
  if (*n == *cap) { *cap = *cap * 2 + 64; *st = realloc(*st, *cap * sizeof(void*)); }
  (*st)[(*n)++] = p;
}

static void log_pushes(int c);
static void do_walk(int log) {
  void **st = NULL; int n = 0, cap = 0;
  // Objects that other threads are constructing cannot be walked.
  int building = 0;
  for (int t = 0; t < MAXT; t++) building |= cur_builds[t] != 0;
  if (building && log) return;
  walk_epoch++;
  uint64_t bytes = 0;
  for (int t = 0; t < MAXT; t++)
    if (thrs[t].live && !cur_builds[t])
      for (int i = 0; i < K; i++) walk_push(&st, &n, &cap, slotv(t * K + i));
  for (int i = 0; i < NG + NC; i++) {
    // The chain heads are walked too: they are ordinary edges.
    walk_push(&st, &n, &cap, G(i));
  }
  if (log) for (int c = 0; c < NC; c++) log_pushes(c);
  vs_pause();
  if (log) fprintf(out, "{\"o\":\"walk\",\"g\":[");
  int first = 1;
  unsigned moved = 0;
  while (n) {
    void *p = st[--n];
    unsigned id = id_of(p);
    if (id == 0 || id >= next_id) die_bad("reference to something that is not an object", id);
    if (walk_seen[id] == walk_epoch) {
      if (walk_addr[id] != ~(uintptr_t)p) die_bad("object reachable at two addresses", id);
      continue;
    }
    walk_seen[id] = walk_epoch;
    walk_addr[id] = ~(uintptr_t)p;
    bytes += idbytes[id];
    if (pinned[id] && pinaddr[id] != ~(uintptr_t)p) moved = id;
    if (log) fprintf(out, "%s[%u", first ? "" : ",", id);
    first = 0;
    if (kind_of(p) == VK_EPH) {
      struct gc_ephemeron *e = p;
      void *k = (void*)gc_ref_value(gc_ephemeron_key(e));
      void *v = (void*)gc_ref_value(gc_ephemeron_value(e));
      walk_push(&st, &n, &cap, k);
      walk_push(&st, &n, &cap, v);
      if (log) fprintf(out, ",[%ld,%ld]", val_of(k), val_of(v));
    } else if (kind_of(p) == VK_FIN) {
      if (log) fprintf(out, ",[]");
    } else {
      unsigned base, nf;
      struct vh_obj *o = fields_of(p, &base, &nf);
      if (log) fprintf(out, ",[");
      for (unsigned i = 0; i < nf; i++) {
        void *v = (void*)*edge_of(o, base + i);
        walk_push(&st, &n, &cap, v);
        if (log) fprintf(out, "%s%ld", i ? "," : "", val_of(v));
      }
      if (log) fprintf(out, "]");
    }
    if (log) fprintf(out, "]");
  }
  if (log) {
    fprintf(out, "],\"mv\":%u}\n", moved);
    records++;
  }
  vs_resume();
  est_live = bytes;
  free(st);
}

// -------------------------------------------------------------- operations
enum opcode { OP_NEW, OP_LEAF, OP_LIST, OP_TREE, OP_VEC, OP_REFILL, OP_SET, OP_GET, OP_MOV,
              OP_DROP, OP_STAMP, OP_GARB, OP_COLLECT, OP_EPH, OP_EPHGET, OP_KILL,
              OP_PUSH, OP_CHAIN, OP_FIN, OP_POP, OP_WALK, OP_PIN, OP_TADD, OP_TREM,
              OP_SWITCH, OP_EXT, OP_CTR, OP_INT, NOPS };
static const char *opnames[] = { "new", "leaf", "list", "tree", "vec", "refill", "set", "get",
  "mov", "drop", "stamp", "garb", "collect", "eph", "ephget", "kill", "push", "chain", "fin",
  "pop", "walk", "pin", "tadd", "trem", "switch", "ext", "ctr", "int" };
struct op { int c; long a[5]; };

static unsigned fresh_id(unsigned kind) {
  if (next_id >= VH_MAX_ID - 2) { done = 1; return 0; }
  unsigned id = next_id++;
  idkind[id] = kind;
  idn[id] = idy[id] = 0;
  idver[id] = 0;
  idbytes[id] = 0;
  return id;
}

static void garbage(uintptr_t count, uintptr_t size, uintptr_t nedges) {
  for (uintptr_t i = 0; i < count; i++) {
    if (size / 8 % 5 == 0 && size < 128) { alloc_mini(0, i & 1); continue; }
    struct vh_obj *o = alloc_obj(VK_GARBAGE, 0, i & 0xffff, size, nedges);
    tmp_unused = NULL;
    (void)o;
  }
}

static void publish(int s, void *p) { slot_set(s, p); }
// Slots are reported 1-based, which is what TLA+ sequences use.
#define S1(s) ((int)(s) + 1)
static long sval(int s) { return val_of(slotv(s)); }

static void made(const char *o, int s, unsigned id, unsigned nf, uint64_t bytes) {
  idbytes[id] = bytes;
  est_live += bytes;
  emit("{\"o\":\"new\",\"k\":\"%s\",\"s\":%d,\"id\":%u,\"nf\":%u,\"n\":%u,\"y\":%u,\"b\":%lu}",
       o, S1(s), id, nf, idn[id], idy[id], (unsigned long)bytes);
}

static void* thread_main(void *arg);
static int nthreads_live(void) {
  int n = 0;
  for (int t = 0; t < MAXT; t++) n += thrs[t].live;
  return n;
}

// Log pushes in the order in which they took effect, which is the order of
// the chain: those that the threads pushing have not logged yet, oldest first.
static unsigned pushing[MAXT];
static void log_pushes(int c) {
  unsigned ids[MAXT]; int n = 0;
  vs_pause();
  int any = 0;
  for (int t = 0; t < MAXT; t++) any |= pushing[t] != 0;
  long steps = 0;
  if (any)
    for (struct gc_ephemeron *e = gc_ephemeron_chain_head((struct gc_ephemeron**)&G(NG + c)); e;
         e = gc_ephemeron_chain_next(e)) {
      for (int t = 0; t < MAXT; t++)
        if (pushing[t] && pushing[t] == id_of(e) && n < MAXT) { ids[n++] = pushing[t]; pushing[t] = 0; }
      if (++steps > 5000) die_bad("ephemeron chain is cyclic", 0);
    }
  vs_resume();
  while (n) emit("{\"o\":\"push\",\"c\":%d,\"id\":%u}", c + 1, ids[--n]);
}

static int exec_op(struct op *op) {
  long *a = op->a;
  switch (op->c) {
  case OP_NEW: {          // slot, nfields, size
    int s = a[0]; unsigned nf = a[1]; size_t size = a[2];
    int mini = nf < 2 && (nf ? size / 8 % 2 : size / 8 % 4) == 0;
    unsigned id = fresh_id(mini ? VK_MINI : VK_NODE);
    if (!id) return 0;
    if (mini) {
      void *m = alloc_mini(id, nf);
      idn[id] = idy[id] = 1;
      publish(s, m);
      made("node", s, id, nf, 16);
      return 1;
    }
    struct vh_obj *o = alloc_obj(VK_NODE, id, 0, size, nf);
    idn[id] = idy[id] = 1;
    publish(s, o);
    made("node", s, id, nf, o->size);
    return 1;
  }
  case OP_LEAF: {         // slot, size
    int s = a[0];
    unsigned id = fresh_id(VK_LEAF);
    if (!id) return 0;
    struct vh_obj *o = alloc_obj(VK_LEAF, id, 0, a[1], 0);
    idn[id] = idy[id] = 1;
    publish(s, o);
    made("leaf", s, id, 0, o->size);
    return 1;
  }
  case OP_EXT: {          // slot, nfields
    if (!ext_enabled) return 0;
    int s = a[0];
    unsigned id = fresh_id(VK_EXT);
    if (!id) return 0;
    size_t size = sizeof(struct vh_obj) + 8 * a[1] + 24;
    char *mem = calloc(1, size + 32);
    struct ext *e = calloc(1, sizeof *e);
    struct vh_obj *o = (void*)(mem + 32);
    o->h.tag = vh_tag(VK_EXT, id, 0);
    o->size = size;
    o->nedges = a[1];
    fill_payload(o);
    e->o = o; e->id = id; e->next = exts; exts = e;
    idn[id] = 1; idy[id] = 0;   // minor collections do not visit it
    publish(s, o);
    made("ext", s, id, o->nedges, 0);
    return 1;
  }
  case OP_LIST: {         // slot, n, order (0: append, 1: cons)
    int s = a[0]; unsigned n = a[1];
    unsigned id = fresh_id(VK_LIST);
    if (!id || n == 0) return 0;
    size_t sz = sizeof(struct vh_obj) + 8 * 4;
    // The slot is cleared first; the list under construction is held by it.
    publish(s, NULL);
    emit("{\"o\":\"drop\",\"s\":%d}", S1(s));
    int cursor = a[3];    // a second slot, holding the last cell
    publish(cursor, NULL);
    emit("{\"o\":\"drop\",\"s\":%d}", S1(cursor));
    struct vh_obj *o = alloc_obj(VK_LIST, id, a[2] ? n - 1 : 0, sz, 3);
    idn[id] = idy[id] = 1;
    publish(s, o);
    made("list", s, id, 2, sz);
    if (!a[2]) publish(cursor, o);
    cur_build = id;
    for (unsigned i = 1; i < n; i++) {
      o = alloc_obj(VK_LIST, id, a[2] ? n - 1 - i : i, sz, 3);
      if (a[2]) {
        set_edge(o, 0, slotv(s));
        publish(s, o);
      } else {
        set_edge(slotv(cursor), 0, o);
        publish(cursor, o);
      }
      idn[id]++; idy[id]++;
    }
    if (!a[2]) publish(cursor, NULL);
    cur_build = 0;
    idbytes[id] = (uint64_t)sz * n;
    est_live += idbytes[id];
    emit_grow(id);
    return 1;
  }
  case OP_TREE: {         // slot, n: nodes in heap order, built breadth-first by path
    int s = a[0]; unsigned n = a[1];
    unsigned id = fresh_id(VK_TREE);
    if (!id || n == 0) return 0;
    size_t sz = sizeof(struct vh_obj) + 8 * 5;
    struct vh_obj *o = alloc_obj(VK_TREE, id, 0, sz, 4);
    idn[id] = idy[id] = 1;
    publish(s, o);
    made("tree", s, id, 2, sz);
    cur_build = id;
    for (unsigned i = 1; i < n; i++) {
      struct vh_obj *c = alloc_obj(VK_TREE, id, i, sz, 4);
      // Find the parent by walking down from the root.
      unsigned path[40]; int d = 0;
      for (unsigned j = i; j; j = (j - 1) / 2) path[d++] = j;
      struct vh_obj *p = slotv(s);
      while (d > 1) { unsigned j = path[--d]; p = (struct vh_obj*)p->w[(j - 1) & 1]; }
      set_edge(p, (i - 1) & 1, c);
      idn[id]++; idy[id]++;
    }
    cur_build = 0;
    idbytes[id] = (uint64_t)sz * n;
    est_live += idbytes[id];
    emit_grow(id);
    return 1;
  }
  case OP_VEC: {          // slot, n
    int s = a[0]; unsigned n = a[1];
    unsigned id = fresh_id(VK_VEC);
    if (!id) return 0;
    size_t sz = sizeof(struct vh_obj) + 8 * (n + 1);
    struct vh_obj *o = alloc_obj(VK_VEC, id, 0, sz, n);
    idn[id] = idy[id] = 1;
    publish(s, o);
    made("vec", s, id, 0, o->size);
    cur_build = id;
    for (unsigned i = 0; i < n; i++) {
      struct vh_obj *e = alloc_obj(VK_VLEAF, id, i + 1, 40, 0);
      set_edge(slotv(s), i, e);
      idn[id]++; idy[id]++;
    }
    cur_build = 0;
    idbytes[id] = sz + 40ull * n;
    est_live += 40ull * n;
    emit_grow(id);
    return 1;
  }
  case OP_REFILL: {       // slot, first, count: replace elements by new ones
    int s = a[0];
    void *p = slotv(s);
    if (!is_obj(p) || kind_of(p) != VK_VEC) return 0;
    unsigned id = id_of(p), n = ((struct vh_obj*)p)->nedges;
    if (!n) return 0;
    // idy counts distinct positions; track replaced ones in this epoch.
    uint8_t *fresh = calloc(n, 1);
    long gc0 = ngc;
    unsigned y0 = idy[id];
    if (busy[id]) { free(fresh); return 0; }
    busy[id] = 1;
    cur_build = id;
    unsigned stride = a[2] > 1 ? 1 : 7;
    for (unsigned j = 0; j < (unsigned)a[2]; j++) {
      unsigned i = (a[1] + (unsigned long)j * stride) % n;
      struct vh_obj *e = alloc_obj(VK_VLEAF, id, i + 1, 40, 0);
      if (ngc != gc0) { memset(fresh, 0, n); gc0 = ngc; y0 = 0; }
      set_edge(slotv(s), i, e);
      e->ver = idver[id];
      fill_payload(e);
      // If the vector itself has young elements from before, be vague: y is a
      // lower bound of the young nodes.
      if (!fresh[i]) { fresh[i] = 1; }
      unsigned cnt = 0;
      if (y0 < idn[id]) { if (idy[id] < idn[id] && y0 == 0) idy[id]++; }
      (void)cnt;
    }
    // Recompute y exactly for the case with no earlier young elements.
    if (y0 == 0) { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += fresh[i]; idy[id] = c; }
    cur_build = 0;
    busy[id] = 0;
    free(fresh);
    emit("{\"o\":\"refill\",\"s\":%d,\"id\":%u,\"y\":%u}", S1(s), id, idy[id]);
    return 1;
  }
  case OP_SET: {          // slot of object, field, slot of value (or -1 null, <-1 immediate)
    void *p = slotv(a[0]);
    if (!is_obj(p)) return 0;
    unsigned kind = kind_of(p);
    if (kind == VK_EPH || kind == VK_FIN || kind == VK_LEAF || kind == VK_VEC) return 0;
    unsigned base, nf;
    struct vh_obj *o = fields_of(p, &base, &nf);
    if (!nf) return 0;
    unsigned f = a[1] % nf;
    void *v = a[2] >= 0 ? slotv(a[2]) : a[2] == -1 ? NULL : imm(-a[2]);
    set_edge(o, base + f, v);
    emit("{\"o\":\"set\",\"s\":%d,\"id\":%u,\"f\":%u,\"v\":%ld}", S1(a[0]), id_of(p), f + 1, val_of(v));
    return 1;
  }
  case OP_GET: {          // slot, field, dst slot
    void *p = slotv(a[0]);
    if (!is_obj(p)) return 0;
    unsigned kind = kind_of(p);
    if (kind == VK_EPH || kind == VK_FIN) return 0;
    unsigned base, nf;
    struct vh_obj *o = fields_of(p, &base, &nf);
    if (!nf) return 0;
    unsigned f = a[1] % nf;
    void *v = (void*)*edge_of(o, base + f);
    unsigned id = id_of(p);
    long vv = val_of(v);
    publish(a[2], v);
    emit("{\"o\":\"get\",\"s\":%d,\"id\":%u,\"f\":%u,\"d\":%d,\"v\":%ld}", S1(a[0]), id, f + 1, S1(a[2]), vv);
    return 1;
  }
  case OP_MOV:
    publish(a[1], slotv(a[0]));
    emit("{\"o\":\"mov\",\"s\":%d,\"d\":%d,\"v\":%ld}", S1(a[0]), S1(a[1]), sval(a[0]));
    return 1;
  case OP_DROP:
    publish(a[0], NULL);
    emit("{\"o\":\"drop\",\"s\":%d}", S1(a[0]));
    return 1;
  case OP_STAMP: {        // rewrite the contents of every node
    void *p = slotv(a[0]);
    if (!is_obj(p)) return 0;
    unsigned kind = kind_of(p), id = id_of(p), base, nf;
    if (kind == VK_EPH || kind == VK_FIN) return 0;
    fields_of(p, &base, &nf);
    idver[id]++;
    struct vh_obj *o = p;
    if (kind == VK_LIST) {
      for (; o; o = (void*)o->w[0]) { o->ver = idver[id]; fill_payload(o); }
    } else if (kind == VK_VEC) {
      o->ver = idver[id]; fill_payload(o);
      for (uint32_t i = 0; i < o->nedges; i++) {
        struct vh_obj *e = (void*)o->w[i];
        e->ver = idver[id]; fill_payload(e);
      }
    } else if (kind == VK_TREE) {
      struct vh_obj *st[64]; int sp = 0;
      st[sp++] = o;
      while (sp) {
        o = st[--sp];
        o->ver = idver[id]; fill_payload(o);
        if (o->w[0]) st[sp++] = (void*)o->w[0];
        if (o->w[1]) st[sp++] = (void*)o->w[1];
      }
    } else if (kind != VK_MINI) {
      o->ver = idver[id]; fill_payload(o);
    }
    emit("{\"o\":\"stamp\",\"s\":%d,\"id\":%u}", S1(a[0]), id);
    return 1;
  }
  case OP_GARB: {         // count, size, nedges
    hold_call(cur_t, garbage, a[0], a[1], a[2]);
    emit("{\"o\":\"garb\",\"n\":%ld,\"b\":%ld}", a[0], a[1]);
    return 1;
  }
  case OP_COLLECT: {
    emit("{\"o\":\"colb\",\"t\":%d,\"k\":\"%s\"}", cur_t + 1, kind_name(a[0]));
    hold_call(cur_t, gc_collect, (uintptr_t)cur_mut, a[0], 0);
    emit("{\"o\":\"cole\",\"t\":%d,\"k\":\"%s\"}", cur_t + 1, kind_name(a[0]));
    return 1;
  }
  case OP_EPH: {          // dst slot, key slot, value slot (or immediate), chain (or -1)
    void *k = slotv(a[1]);
    if (!is_obj(k) || kind_of(k) == VK_EXT) return 0;
    unsigned id = fresh_id(VK_EPH);
    if (!id) return 0;
    struct gc_ephemeron *e = gc_allocate_ephemeron(cur_mut);
    if (!e) die_bad("ephemeron allocation returned NULL", id);
    alloc_bytes += gc_ephemeron_size();
    *vh_tag_word(gc_ref_from_heap_object(e)) = vh_tag(VK_EPH, id, 0);
    k = slotv(a[1]);
    void *v = a[2] >= 0 ? slotv(a[2]) : imm(-a[2]);
    if (!v) v = k;        // values are objects or immediates
    gc_ephemeron_init(cur_mut, e, gc_ref((uintptr_t)k), gc_ref((uintptr_t)v));
    idn[id] = idy[id] = 1;
    idbytes[id] = gc_ephemeron_size();
    est_live += idbytes[id];
    publish(a[0], e);
    emit("{\"o\":\"eph\",\"s\":%d,\"id\":%u,\"key\":%ld,\"val\":%ld}", S1(a[0]), id, val_of(k), val_of(v));
    if (a[3] >= 0) {
      pushing[cur_t] = id;
      gc_ephemeron_chain_push((struct gc_ephemeron**)&G(NG + a[3]), e);
      log_pushes(a[3]);
      if (pushing[cur_t]) die_bad("pushed ephemeron is not in its chain", id);
    }
    return 1;
  }
  case OP_EPHGET: {       // slot, dst key, dst value
    void *p = slotv(a[0]);
    if (!is_obj(p) || kind_of(p) != VK_EPH) return 0;
    unsigned id = id_of(p);
    vs_pause();
    void *k = (void*)gc_ref_value(gc_ephemeron_key(p));
    void *v = (void*)gc_ref_value(gc_ephemeron_value(p));
    vs_resume();
    long kk = val_of(k), vv = val_of(v);
    int s = a[0];
    publish(a[1], k);
    publish(a[2], v);
    emit("{\"o\":\"ephget\",\"s\":%d,\"id\":%u,\"dk\":%d,\"dv\":%d,\"key\":%ld,\"val\":%ld}",
         S1(s), id, S1(a[1]), S1(a[2]), kk, vv);
    return 1;
  }
  case OP_KILL: {
    void *p = slotv(a[0]);
    if (!is_obj(p) || kind_of(p) != VK_EPH) return 0;
    vs_pause();
    gc_ephemeron_mark_dead(p);
    vs_resume();
    emit("{\"o\":\"kill\",\"s\":%d,\"id\":%u}", S1(a[0]), id_of(p));
    return 1;
  }
  case OP_CHAIN: {        // chain, dst slot for the last live entry
    struct gc_ephemeron **loc = (struct gc_ephemeron**)&G(NG + a[0]);
    log_pushes(a[0]);
    fprintf(out, "{\"o\":\"chain\",\"c\":%ld,\"ids\":[", a[0] + 1);
    vs_pause();
    int first = 1, n = 0;
    struct gc_ephemeron *last = NULL;
    for (struct gc_ephemeron *e = gc_ephemeron_chain_head(loc); e;
         e = gc_ephemeron_chain_next(e)) {
      fprintf(out, "%s%ld", first ? "" : ",", val_of(e));
      first = 0;
      last = e;
      if (++n > 5000) die_bad("ephemeron chain is cyclic", 0);
    }
    vs_resume();
    publish(a[1], last);
    fprintf(out, "],\"d\":%d,\"v\":%ld}\n", S1(a[1]), val_of(last));
    records++;
    return 1;
  }
  case OP_FIN: {          // object slot, closure slot (or immediate), priority
    void *p = slotv(a[0]);
    if (!is_obj(p) || kind_of(p) == VK_EXT || kind_of(p) == VK_FIN) return 0;
    unsigned id = fresh_id(VK_FIN);
    if (!id) return 0;
    struct gc_finalizer *f = gc_allocate_finalizer(cur_mut);
    if (!f) die_bad("finalizer allocation returned NULL", id);
    alloc_bytes += gc_finalizer_size();
    *vh_tag_word(gc_ref_from_heap_object(f)) = vh_tag(VK_FIN, id, 0);
    p = slotv(a[0]);
    void *c = a[1] >= 0 ? slotv(a[1]) : imm(-a[1]);
    if (!c) c = imm(7);
    idn[id] = idy[id] = 1;
    idbytes[id] = gc_finalizer_size();
    gc_finalizer_attach(cur_mut, f, a[2], gc_ref((uintptr_t)p), gc_ref((uintptr_t)c));
    emit("{\"o\":\"fin\",\"id\":%u,\"obj\":%ld,\"clo\":%ld,\"p\":%ld}", id, val_of(p), val_of(c), a[2]);
    return 1;
  }
  case OP_POP: {          // dst slot object, dst slot closure
    emit("{\"o\":\"popb\"}");
    struct gc_finalizer *f = gc_pop_finalizable(cur_mut);
    if (!f) {
      emit("{\"o\":\"pop\",\"id\":0,\"obj\":0,\"clo\":0,\"so\":1,\"sc\":1}");
      return 1;
    }
    if (kind_of(f) != VK_FIN) die_bad("popped something that is not a finalizer", 0);
    void *p = (void*)gc_ref_value(gc_finalizer_object(f));
    void *c = (void*)gc_ref_value(gc_finalizer_closure(f));
    if (!is_obj(p)) die_bad("popped finalizer has no object", id_of(f));
    long pv = val_of(p), cv = val_of(c);
    publish(a[0], p);
    publish(a[1], c);
    emit("{\"o\":\"pop\",\"id\":%ld,\"obj\":%ld,\"clo\":%ld,\"so\":%d,\"sc\":%d}", val_of(f), pv, cv,
         S1(a[0]), S1(a[1]));
    return 1;
  }
  case OP_INT: {          // refer to the inside of the object from now on
    if (PRECISE || conc || a[0] >= MAXT * K) return 0;
    void *p = slotv(a[0]);
    if (!is_obj(p) || kind_of(p) == VK_EXT) return 0;
    unsigned kind = kind_of(p);
    size_t size = kind == VK_EPH ? gc_ephemeron_size() : kind == VK_FIN ? gc_finalizer_size()
      : size_of(p);
    size_t d = a[1] % 3 == 0 ? size - 1 - a[2] % 16 % size : a[1] % 3 == 1 ? a[2] % size : 16 + a[2] % 16;
    slot_set(a[0], (char*)p + (d < size ? d : size - 1));
    disp[a[0]] = d < size ? d : size - 1;
    return 1;
  }
  case OP_WALK:
    do_walk(1);
    return 1;
  case OP_PIN: {
#if VH_CAN_PIN
    void *p = slotv(a[0]);
    if (!is_obj(p) || kind_of(p) == VK_EXT) return 0;
    unsigned id = id_of(p);
    gc_pin_object(cur_mut, gc_ref_from_heap_object(p));
    if (!pinned[id]) { pinned[id] = 1; pinaddr[id] = ~(uintptr_t)p; }
    emit("{\"o\":\"pin\",\"s\":%d,\"id\":%u}", S1(a[0]), id);
    return 1;
#else
    return 0;
#endif
  }
  case OP_TADD: {
    int t = a[0];
    if (t < 0 || t >= MAXT || thrs[t].live || thrs[t].busy) return 0;
    thrs[t].busy = 1;
    thrs[t].ready = thrs[t].gone = 0;
    if (pthread_create(&thrs[t].pt, NULL, thread_main, (void*)(uintptr_t)t)) {
      perror("pthread_create"); exit(2);
    }
    if (conc) return 1;     // the thread says so when it is there
    while (!thrs[t].ready) sched_yield();
    thrs[t].live = 1;
    emit("{\"o\":\"tadd\",\"t\":%d}", t + 1);
    return 1;
  }
  case OP_CTR:
    vs_pause();
    uint64_t counter = gc_allocation_counter(heap);
    vs_resume();
    emit("{\"o\":\"ctr\",\"v\":%lu,\"tot\":%lu}", (unsigned long)(counter >> 10),
         (unsigned long)(alloc_bytes >> 10));
    return 1;
  default:
    return 0;
  }
}

// ------------------------------------------------------------------ script
static struct op *script;
static size_t nscript, scriptpos;
static FILE *dump;

static void load_script(const char *file) {
  FILE *f = fopen(file, "r");
  if (!f) { perror(file); exit(2); }
  char line[256];
  while (fgets(line, sizeof line, f)) {
    char name[32];
    struct op op = { -1, { 0, 0, 0, 0, 0 } };
    if (sscanf(line, "%31s %ld %ld %ld %ld %ld", name, &op.a[0], &op.a[1], &op.a[2], &op.a[3],
               &op.a[4]) < 1)
      continue;
    for (int i = 0; i < NOPS; i++) if (!strcmp(name, opnames[i])) op.c = i;
    if (op.c < 0) { fprintf(stderr, "unknown op %s\n", name); exit(2); }
    script = realloc(script, (nscript + 1) * sizeof(*script));
    script[nscript++] = op;
  }
  fclose(f);
}

// --------------------------------------------------------------- generator
static int weights[NOPS];
static long nops, opcount;
static int max_threads = 1;
static long garbage_scale = 400, bulk_scale = 300;

static void default_weights(void) {
  static const struct { int c, w; } d[] = {
    { OP_NEW, 24 }, { OP_LEAF, 4 }, { OP_LIST, 3 }, { OP_TREE, 2 }, { OP_VEC, 2 },
    { OP_REFILL, 5 }, { OP_SET, 26 }, { OP_GET, 10 }, { OP_MOV, 6 }, { OP_DROP, 9 },
    { OP_STAMP, 4 }, { OP_GARB, 5 }, { OP_COLLECT, 3 }, { OP_WALK, 3 },
  };
  for (unsigned i = 0; i < sizeof d / sizeof *d; i++) weights[d[i].c] = d[i].w;
}
static void parse_weights(const char *s) {
  char *dup = strdup(s), *save = NULL;
  for (char *tok = strtok_r(dup, ",", &save); tok; tok = strtok_r(NULL, ",", &save)) {
    char *eq = strchr(tok, '=');
    if (!eq) { fprintf(stderr, "bad weight %s\n", tok); exit(2); }
    *eq = 0;
    int c = -1;
    for (int i = 0; i < NOPS; i++) if (!strcmp(tok, opnames[i])) c = i;
    if (c < 0) { fprintf(stderr, "unknown op %s\n", tok); exit(2); }
    weights[c] = atoi(eq + 1);
  }
  free(dup);
}

// A slot this thread may use: its own, or a global.
static int my_slot(void) {
  if (conc) return cur_t * K + (int)rnd(K);
  return rnd(4) ? cur_t * K + (int)rnd(K) : MAXT * K + (int)rnd(NG);
}
static int full_slot(void) {      // prefer a slot that holds an object
  for (int i = 0; i < 6; i++) { int s = my_slot(); if (is_obj(slotv(s))) return s; }
  return my_slot();
}
static int kind_slot(unsigned kind) {
  for (int i = 0; i < 14; i++) {
    int s = my_slot();
    if (is_obj(slotv(s)) && kind_of(slotv(s)) == kind) return s;
  }
  return full_slot();
}
static int own_slot(void) { return cur_t * K + (int)rnd(K); }

static int room(uint64_t bytes) {
  if (est_live + bytes <= live_cap) return 1;
  do_walk(0);
  return est_live + bytes <= live_cap;
}

static int collect_kinds;   // bit mask of kinds to request

static int gen_op(struct op *op) {
  int total = 0;
  for (int i = 0; i < NOPS; i++) total += weights[i];
  int r = rnd(total), c = 0;
  for (c = 0; c < NOPS; c++) { if (r < weights[c]) break; r -= weights[c]; }
  op->c = c;
  long *a = op->a;
  memset(a, 0, sizeof op->a);
  switch (c) {
  case OP_NEW: {
    a[0] = my_slot(); a[1] = rnd(5); a[2] = pick_size(a[1]);
    if (!room(a[2])) { op->c = OP_DROP; }
    break;
  }
  case OP_LEAF: a[0] = my_slot(); a[1] = pick_size(0); if (!room(a[1])) op->c = OP_DROP; break;
  case OP_LIST: a[0] = own_slot(); do a[3] = own_slot(); while (a[3] == a[0]);
    a[1] = 1 + rnd(rnd(6) ? bulk_scale : bulk_scale * 8); a[2] = rnd(2);
    if (!room(a[1] * 64)) op->c = OP_DROP; break;
  case OP_TREE: a[0] = own_slot(); a[1] = 1 + rnd(rnd(6) ? bulk_scale : bulk_scale * 8);
    if (!room(a[1] * 64)) op->c = OP_DROP; break;
  case OP_VEC: a[0] = own_slot(); a[1] = rnd(rnd(4) ? bulk_scale : bulk_scale * 8);
    if (!room(a[1] * 48)) op->c = OP_DROP; break;
  case OP_REFILL: a[0] = kind_slot(VK_VEC); a[1] = rnd(10000); a[2] = 1 + rnd(bulk_scale);
    if (rnd(8) == 0) a[2] *= 4;
    break;
  case OP_SET: a[0] = full_slot(); a[1] = rnd(8);
    a[2] = rnd(10) ? full_slot() : rnd(2) ? -1 : -2 - (long)rnd(50); break;
  case OP_GET: a[0] = full_slot(); a[1] = rnd(8); a[2] = my_slot(); break;
  case OP_MOV: a[0] = full_slot(); a[1] = my_slot(); break;
  case OP_DROP: a[0] = my_slot(); break;
  case OP_STAMP: a[0] = full_slot(); break;
  case OP_GARB: a[0] = 1 + rnd(garbage_scale); a[2] = rnd(3); a[1] = pick_size(a[2]);
    if (a[1] > 4096) { a[0] = 1 + a[0] * 128 / a[1]; }
    break;
  case OP_COLLECT: { do a[0] = rnd(4); while (!(collect_kinds & (1 << a[0]))); break; }
  case OP_EPH: a[0] = my_slot(); a[1] = full_slot(); a[2] = rnd(8) ? full_slot() : -2 - (long)rnd(50);
    a[3] = rnd(3) ? -1 : (int)rnd(NC); break;
  case OP_EPHGET: a[0] = kind_slot(VK_EPH); a[1] = my_slot(); do a[2] = my_slot(); while (a[2] == a[1]); break;
  case OP_KILL: a[0] = kind_slot(VK_EPH); break;
  case OP_CHAIN: a[0] = rnd(NC); a[1] = my_slot(); break;
  case OP_FIN: a[0] = full_slot(); a[1] = rnd(6) ? full_slot() : -2 - (long)rnd(50); a[2] = rnd(3); break;
  case OP_POP: a[0] = my_slot(); do a[1] = my_slot(); while (a[1] == a[0]); break;
  case OP_PIN: a[0] = full_slot(); break;
  case OP_INT: a[0] = full_slot(); a[1] = rnd(3); a[2] = rnd(1 << 20); break;
  case OP_TADD: a[0] = rnd(max_threads); break;
  case OP_SWITCH: a[0] = rnd(max_threads); break;
  case OP_EXT: a[0] = my_slot(); a[1] = rnd(4); break;
  default: break;
  }
  if (op->c == OP_DROP) a[0] = my_slot();
  if (conc && (op->c == OP_MOV || op->c == OP_DROP) && rnd(2))
    a[op->c == OP_MOV ? rnd(2) : 0] = MAXT * K + rnd(NG);
  return 1;
}

// ----------------------------------------------------------------- threads
static void pass_turn(int t) { atomic_store(&turn, t); }

static void* wait_inactive(void *arg) {
  int me = (uintptr_t)arg;
  unsigned n = 0;
  while (atomic_load(&turn) != me && !atomic_load(&done)) {
    if (++n < 200) sched_yield(); else usleep(50);
  }
  return NULL;
}
static void wait_turn(int me, struct gc_mutator *mut) {
  static __thread unsigned idle_rng;
  idle_rng = idle_rng * 1103515245u + 12345u + me;
  int inactive = idle_mode == 2 ? (int)((idle_rng >> 16) & 1) : idle_mode;
  if (inactive) {
    hold_call(me, gc_call_without_gc, (uintptr_t)mut, (uintptr_t)wait_inactive, me);
  } else {
    unsigned n = 0;
    while (atomic_load(&turn) != me && !atomic_load(&done)) {
      if (gc_should_stop_for_safepoint(mut))
        hold_call(me, gc_safepoint_slow, (uintptr_t)mut, 0, 0);
      if (++n < 200) sched_yield(); else usleep(50);
    }
  }
}

static unsigned walk_after_gc = 1;

static void* idle_away(void *arg) {
  for (unsigned n = (uintptr_t)arg; n; n--) vs_point();
  return NULL;
}
static void* wait_others(void *arg) {
  while (1) {
    int n = 0;
    for (int t = 1; t < MAXT; t++) n += thrs[t].busy;
    if (!n) return NULL;
    usleep(1);
  }
}

// Returns 1 if this thread should exit.
static int GC_NEVER_INLINE run_turn(int me, struct gc_mutator *mut) {
  cur_t = me;
  cur_mut = mut;
  while (!done) {
    struct op op;
    vs_point();
    if (script) {
      if (scriptpos >= nscript) { done = 1; break; }
      op = script[scriptpos++];
    } else {
      if (opcount++ >= nops || records > max_records) { done = 1; break; }
      gen_op(&op);
    }
    if (dump) {
      fprintf(dump, "%s %ld %ld %ld %ld %ld\n", opnames[op.c], op.a[0], op.a[1], op.a[2], op.a[3], op.a[4]);
      fflush(dump);
    }
    cur_op_line++;
    if (op.c == OP_SWITCH) {
      int t = op.a[0];
      if (conc) {
        // Poll for a while, or be inactive.
        int n = rnd(200);
        if (rnd(2)) gc_call_without_gc(mut, idle_away, (void*)(uintptr_t)n);
        else for (int i = 0; i < n; i++) { gc_safepoint(mut); vs_point(); }
        continue;
      }
      if (t == me || t < 0 || t >= MAXT || !thrs[t].live) continue;
      pass_turn(t);
      return 0;
    }
    if (op.c == OP_TREM) {
      if (me == 0) continue;
      return 1;
    }
    long g = ngc;
    exec_op(&op);
    if (!PRECISE) scrub();
    pushing[me] = 0;
    if (walk_after_gc && ngc != g && !done && (script || rnd(walk_after_gc) == 0))
      do_walk(1);
  }
  return 0;
}

static void* GC_NEVER_INLINE run_thread(struct gc_stack_addr base, void *arg) {
  int me = (uintptr_t)arg;
  struct thr *t = &thrs[me];
  struct handles h;
  memset(&h, 0, sizeof h);
  memset(&disp[me * K], 0, K * sizeof disp[0]);
  struct gc_mutator *mut = t->mut;
  if (!mut) mut = gc_init_for_thread(base, heap);
  t->mut = mut;
  t->h = &h;
  t->roots = (struct gc_mutator_roots){ (void**)h.v, K };
  if (PRECISE) gc_mutator_set_roots(mut, &t->roots);  // (or else the handles are found on the stack)
  if (me == 0) {
    t->live = 1;
    turn = 0;
  }
  if (conc && me) {
    t->live = 1;
    emit("{\"o\":\"tadd\",\"t\":%d}", me + 1);
  }
  atomic_store(&t->ready, 1);
  int leave = 0;
  while (!done) {
    if (!conc && turn != me) { wait_turn(me, mut); continue; }
    if (run_turn(me, mut)) { leave = 1; break; }
  }
  if (conc && !me) gc_call_without_gc(mut, wait_others, NULL);
  if (leave || (conc && me)) {
    // The slots stop being roots when the thread detaches.
    gc_mutator_set_roots(mut, NULL);
    memset(&h, 0, sizeof h);
    t->live = 0;
    if (conc) emit("{\"o\":\"trem\",\"t\":%d}", me + 1);
    gc_finish_for_thread(mut);
    t->mut = NULL;
    if (!conc) emit("{\"o\":\"trem\",\"t\":%d}", me + 1);
    t->busy = 0;
    atomic_store(&t->gone, 1);
    pass_turn(0);
  }
  return NULL;
}

static void* thread_main(void *arg) {
  gc_call_with_stack_addr(run_thread, arg);
  return NULL;
}

static void* GC_NEVER_INLINE real_main(struct gc_stack_addr base, void *arg) {
  struct gc_options *options = gc_allocate_options();
  const char *opts = arg;
  if (!gc_options_parse_and_set_many(options, opts)) {
    fprintf(stderr, "bad gc options %s\n", opts);
    exit(2);
  }
  struct gc_mutator *mut;
  if (!gc_init(options, base, &heap, &mut, listener, NULL)) {
    fprintf(stderr, "gc_init failed\n");
    exit(2);
  }
  if (PRECISE) no_heap_roots = 0;
  if (!no_heap_roots) gc_heap_set_roots(heap, &heap_roots);
  gc_set_finalizer_callback(heap, have_finalizers);
  if (ext_enabled) gc_heap_set_extern_space(heap, &ext_space);
  thrs[0].mut = mut;
  emit("{\"o\":\"reset\",\"st\":\"%s\",\"cr\":%d,\"ct\":%d,\"gen\":%d,\"par\":%d,\"ns\":%d,\"nk\":%d,\"nc\":%d,\"hs\":%lu,\"fixed\":%d,\"ext\":%d}",
       VH_STEM, !GC_PRECISE_ROOTS, GC_CONSERVATIVE_TRACE, GC_GENERATIONAL, GC_PARALLEL, NSLOTS, K, NC,
       (unsigned long)(init_size >> 10), strstr(opts, "fixed") != NULL, ext_enabled);
  gc_call_with_stack_addr(run_thread, (void*)(uintptr_t)0);
  return NULL;
}

int vh_small_table;     // ephwrap.c

int main(int argc, char **argv) {
  const char *opts = "heap-size-policy=fixed,heap-size=8388608";
  const char *outfile = NULL;
  int c;
  uint64_t seed = 1;
  collect_kinds = 0xf;
  default_weights();
  nops = 400;
  live_cap = 2 << 20;
  while ((c = getopt(argc, argv, "o:s:n:g:w:t:S:D:L:i:c:G:B:xW:M:ZCF:H:R")) != -1) {
    switch (c) {
    case 'o': outfile = optarg; break;
    case 's': seed = strtoull(optarg, NULL, 0); break;
    case 'n': nops = atol(optarg); break;
    case 'g': opts = optarg; break;
    case 'w': parse_weights(optarg); break;
    case 't': max_threads = atoi(optarg); if (max_threads > MAXT) max_threads = MAXT; break;
    case 'S': load_script(optarg); break;
    case 'D': dump = fopen(optarg, "w"); break;
    case 'L': live_cap = strtoull(optarg, NULL, 0); break;
    case 'i': idle_mode = atoi(optarg); break;
    case 'c': collect_kinds = atoi(optarg); break;
    case 'G': garbage_scale = atol(optarg); break;
    case 'B': bulk_scale = atol(optarg); break;
    case 'x': ext_enabled = 1; break;
    case 'W': walk_after_gc = atoi(optarg); break;
    case 'M': max_records = atol(optarg); break;
    case 'R': no_heap_roots = 1; break;
    case 'H': hold_pct = atoi(optarg); break;
    case 'Z': check_zero = 0; break;
#ifdef VSCHED
    case 'C': conc = 1; break;
#endif
#ifdef GC_VERIF_FAULTS
    case 'F': fault_rate = atoi(optarg); break;
#endif
    default: return 2;
    }
  }
  rng_state = seed * 0x9E3779B97F4A7C15ull + 12345;
  out = outfile ? fopen(outfile, "w") : stdout;
  if (!out) { perror(outfile); return 2; }
  setvbuf(out, NULL, _IOFBF, 1 << 16);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_crash;
  int sigs[] = { SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE, SIGTRAP };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
  vh_small_table = seed % 3 != 0;
#ifdef VSCHED
  vs_init();
  vs_on_stuck = on_stuck;
#endif
  gc_call_with_stack_addr(real_main, (void*)opts);
  emit("{\"o\":\"end\",\"hs\":%lu,\"ngc\":%ld,\"tot\":%lu,\"bh\":%u}", (unsigned long)((last_resize ? last_resize : init_size) >> 10),
       ngc, (unsigned long)(alloc_bytes >> 10), vh_busy_headers);
  fflush(out);
#ifdef VSCHED
  fprintf(stderr, "vsched: steps=%lu switches=%lu threads=%u\n", vs_steps(), vs_switches(), vs_threads_seen());
#endif
  if (dump) fclose(dump);
  _exit(0);
}
