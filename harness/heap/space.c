// Space driver: keeps groups of objects of known total size alive, drops them,
// makes garbage, and reports what the heap said about its size.  The budget is
// judged by spec/SpaceTrace.tla.
//   space -o FILE -s SEED -g OPTIONS -T TARGET -n STEPS -p PROFILE -t THREADS -m MODE
// TARGET: bytes to keep alive (all threads together); MODE 0: stay below,
// 1: then keep growing until memory runs out, 2: grow and shrink in phases.
#define _GNU_SOURCE
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vh-embedder.h"
#include "gc-api.h"

_Atomic uint32_t vh_traced[VH_MAX_ID], vh_forwarded[VH_MAX_ID], vh_outside_pause, vh_busy_headers;
_Atomic uint64_t vh_trace_calls, vh_root_calls, vh_heap_root_calls;
_Atomic int vh_in_pause;
int vh_ext_visit(struct gc_ref ref) { abort(); }
void vh_ext_start(int m) {}
void vh_ext_finish(int m) {}
void vh_ext_roots(void (*trace_edge)(struct gc_edge, struct gc_heap*, void*), struct gc_heap *h, void *d) {}

static FILE *out;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static void emit(const char *fmt, ...) {
  pthread_mutex_lock(&lk);
  va_list ap; va_start(ap, fmt); vfprintf(out, fmt, ap); va_end(ap); fputc('\n', out);
  pthread_mutex_unlock(&lk);
}
static struct gc_heap *heap;
static size_t size, gclive; static int kind; static long ngc;
static void l_init(void *d, size_t s) { size = s; }
static void l_n(void *d) {}
static void l_prepare(void *d, enum gc_collection_kind k) { kind = k; gclive = 0; }
static void l_restart(void *d) { ngc++; emit("{\"o\":\"gc\",\"k\":%d,\"live\":%zu}", kind, gclive >> 10); }
static void* l_added(void *d) { return NULL; }
static void l_resized(void *d, size_t s) { size = s; emit("{\"o\":\"resize\",\"hs\":%zu}", s >> 10); }
static void l_live(void *d, size_t s) { gclive = s; }
static const struct gc_event_listener listener = {
  l_init, l_n, l_n, l_n, l_prepare, l_n, l_n, l_n, l_n, l_restart, l_added, l_n, l_n, l_n, l_n, l_n, l_resized, l_live
};
static volatile int finished;
static void on_crash(int sig) {
  // Running out of space is a crash; the message on stderr tells it from others.
  static int once;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for (;;) pause();    // another thread, too
  char b[100]; int n = snprintf(b, sizeof b, "\n{\"o\":\"crash\",\"sig\":%d}\n", sig);
  fflush(out); if (write(fileno(out), b, n)) {} _exit(4);
}

#define NS 4096
static uint64_t seed = 1; static long steps = 300; static size_t target = 1 << 20; static int profile, mode, nthreads = 1;
static uint32_t gid;
struct th { int me; uint64_t rng; size_t *bytes; unsigned *ids; };
static uint64_t rnd64(struct th *t) {
  uint64_t z = (t->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static unsigned rnd(struct th *t, unsigned n) { return n ? (rnd64(t) >> 20) % n : 0; }
static size_t object_size(struct th *t) {
  size_t s;
  int p = profile == 9 ? rnd(t, 5) : profile;
  switch (p) {
  case 0: s = 48 + rnd(t, 30) * 16; break;                   // small
  case 1: s = 256 + rnd(t, 480) * 16; break;                 // up to 8 kB
  case 2: s = 9000 + rnd(t, 60000); break;                   // large
  case 3: s = 32; break;
  case 4: s = rnd(t, 20) ? 64 + rnd(t, 1000) : 100000 + rnd(t, 900000); break;
  default: s = 1024; break;
  }
  return (s + 15) & ~15ul;
}
static struct vh_obj* GC_NEVER_INLINE mk(struct gc_mutator *m, size_t bytes, void *next) {
  // (next is re-read by the caller after this, as it may move.)
  struct vh_obj *o = gc_allocate(m, bytes, GC_ALLOCATION_TAGGED);
  o->h.tag = vh_tag(VK_LIST, 1, 0); o->size = bytes; o->nedges = 1; o->ver = 0;
  return o;
}
static void store(struct gc_mutator *m, struct vh_obj *o, void *v) {
  if (v) gc_write_barrier(m, gc_ref_from_heap_object(o), o->size, gc_edge(&o->w[0]), gc_ref_from_heap_object_or_null(v));
  o->w[0] = (uintptr_t)v;
}
static void GC_NEVER_INLINE group(struct th *t, struct gc_mutator *m, void **slot, int i, size_t want) {
  // Plan first, so that the size is known before the first allocation.
  size_t plan[600], n = 0, b = 0;
  while (b < want && n < 600) {
    size_t s = object_size(t);
    if (n && b + s > want * 2) break;
    plan[n++] = s; b += s;
  }
  unsigned id = __atomic_add_fetch(&gid, 1, __ATOMIC_SEQ_CST);
  t->ids[i] = id; t->bytes[i] = b;
  emit("{\"o\":\"nb\",\"id\":%u,\"b\":%zu,\"n\":%zu}", id, b, n);
  for (size_t k = 0; k < n; k++) {
    struct vh_obj *o = mk(m, plan[k], NULL);
    void *head = *slot;
    *slot = o;
    store(m, o, head);
  }
  emit("{\"o\":\"ne\",\"id\":%u}", id);
}
static void GC_NEVER_INLINE drop(struct th *t, void **slot, int i) {
  emit("{\"o\":\"db\",\"id\":%u}", t->ids[i]);
  *slot = NULL; t->bytes[i] = 0;
  __asm__ volatile ("" ::: "memory");
  emit("{\"o\":\"de\",\"id\":%u}", t->ids[i]);
}
static void GC_NEVER_INLINE scrub(void) { volatile char a[6000]; memset((void*)a, 0, sizeof a); }
static void GC_NEVER_INLINE garbage(struct th *t, struct gc_mutator *m, size_t want) {
  size_t b = 0, n = 0;
  size_t s0 = object_size(t);
  if (s0 < want / 2000) s0 = want / 2000 & ~15ul;
  if (s0 > 8000 && profile != 2 && profile != 4 && profile != 9) s0 = 8000;
  emit("{\"o\":\"gb\",\"b\":%zu}", s0);     // at most one of them is in use
  while (b < want) { mk(m, s0, NULL); b += s0; n++; }
  emit("{\"o\":\"ge\",\"b\":%zu,\"kb\":%zu}", s0, b >> 10);
}
struct slots { void *v[NS]; };
static void* GC_NEVER_INLINE work(struct gc_mutator *m, struct th *t) {
  struct slots sl; memset(&sl, 0, sizeof sl);
  size_t bytes[NS]; unsigned ids[NS]; memset(bytes, 0, sizeof bytes);
  t->bytes = bytes; t->ids = ids;
  struct gc_mutator_roots roots = { sl.v, NS };
  if (GC_PRECISE_ROOTS) gc_mutator_set_roots(m, &roots);
  size_t goal = target / nthreads, live = 0, lo = goal / 4;
  size_t chunk = goal / 24 + 64;
  int growing = 1;
  for (long s = 0; s < steps || mode == 1; s++) {
    gc_safepoint(m);
    size_t hi = mode == 1 && s >= steps ? ~0ul : mode == 2 ? (s / 40 % 2 ? goal : lo) : goal;
    int r = rnd(t, 100);
    live = 0; int nfree = 0;
    for (int i = 0; i < NS; i++) live += bytes[i], nfree += !bytes[i];
    if (mode == 1 && s >= steps) { r = rnd(t, 50); if (s > steps + 3000) break; }
    size_t want = rnd(t, chunk * 2);
    if (profile == 2) want += 70000;
    if (profile == 4 || profile == 9) want += 1000000;
    if (r < 50 && live + 2 * want + 2000 <= hi && nfree) {
      int i; do i = rnd(t, NS); while (bytes[i]);
      group(t, m, &sl.v[i], i, want);
    } else if (r < 70 || live > hi) {
      for (int k = 0; k < 3; k++) {
        int c = rnd(t, NS), i = c;
        do { if (bytes[i]) break; i = (i + 1) % NS; } while (i != c);
        if (bytes[i]) drop(t, &sl.v[i], i);
      }
    } else if (r < 96) {
      garbage(t, m, rnd(t, 4) ? rnd(t, chunk * 4 + 1000) : rnd(t, target));
    } else {
      gc_collect(m, GC_COLLECTION_MINOR + rnd(t, 3));
    }
    scrub();
    if (s % 8 == 0 && !t->me) {
      emit("{\"o\":\"cb\"}");
      emit("{\"o\":\"ctr\",\"kb\":%zu}", (size_t)(gc_allocation_counter(heap) >> 10));
    }
  }
  if (mode == 1) emit("{\"o\":\"unbounded\"}");
  for (int i = 0; i < NS; i++) if (bytes[i]) drop(t, &sl.v[i], i);
  gc_mutator_set_roots(m, NULL);
  return NULL;
}
static void* thread_body(struct gc_stack_addr base, void *arg) {
  struct th *t = arg;
  struct gc_mutator *m = gc_init_for_thread(base, heap);
  work(m, t);
  gc_finish_for_thread(m);
  return NULL;
}
static void* thread_main(void *arg) { gc_call_with_stack_addr(thread_body, arg); return NULL; }
static pthread_t pt[8]; static struct th th[8];
static void* join_all(void *d) { for (int i = 1; i < nthreads; i++) pthread_join(pt[i], NULL); return NULL; }
static void* GC_NEVER_INLINE real_main(struct gc_stack_addr base, void *arg) {
  struct gc_options *o = gc_allocate_options();
  if (!gc_options_parse_and_set_many(o, arg)) { fprintf(stderr, "bad options\n"); exit(2); }
  struct gc_mutator *m;
  if (!gc_init(o, base, &heap, &m, listener, NULL)) { fprintf(stderr, "gc_init failed\n"); exit(2); }
  const char *opts = arg;
  double mult = strstr(opts, "multiplier=") ? atof(strstr(opts, "multiplier=") + 11) : 1.75;
  emit("{\"o\":\"reset\",\"c\":\"%s\",\"pol\":\"%s\",\"hs\":%zu,\"mult\":%d,\"prof\":%d,\"gen\":%d,\"ct\":%d,\"th\":%d}", COLLECTOR,
       strstr(opts, "policy=fixed") ? "fixed" : strstr(opts, "growable") ? "growable" : "adaptive", size >> 10,
       (int)(mult * 100), profile, GC_GENERATIONAL, GC_CONSERVATIVE_TRACE, nthreads);
  for (int i = 0; i < nthreads; i++) th[i] = (struct th){ i, seed * 77 + i };
  for (int i = 1; i < nthreads; i++) pthread_create(&pt[i], NULL, thread_main, &th[i]);
  work(m, &th[0]);
  if (nthreads > 1) gc_call_without_gc(m, join_all, NULL);
  return NULL;
}
int main(int argc, char **argv) {
  const char *opts = "heap-size-policy=fixed,heap-size=8388608";
  out = stdout; int c;
  while ((c = getopt(argc, argv, "o:s:g:T:n:p:t:m:")) != -1) switch (c) {
    case 'o': out = fopen(optarg, "w"); if (!out) return 2; break;
    case 's': seed = strtoull(optarg, NULL, 0); break;
    case 'g': opts = optarg; break;
    case 'T': target = strtoull(optarg, NULL, 0); break;
    case 'n': steps = atol(optarg); break;
    case 'p': profile = atoi(optarg); break;
    case 't': nthreads = atoi(optarg); break;
    case 'm': mode = atoi(optarg); break;
    default: return 2;
  }
  signal(SIGSEGV, on_crash); signal(SIGABRT, on_crash); signal(SIGBUS, on_crash); signal(SIGILL, on_crash);
  signal(SIGFPE, on_crash); signal(SIGTRAP, on_crash);
  gc_call_with_stack_addr(real_main, (void*)opts);
  emit("{\"o\":\"end\",\"ngc\":%ld}", ngc);
  fflush(out);
  _exit(0);
}
