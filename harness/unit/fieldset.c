// Drives the field set (the remembered set of the generational collectors):
// mutators log edges at the same time, then either a minor collection visits
// all of them with several workers, keeping some and logging others, or a
// major one forgets them.  Judged by spec/FieldSet.tla.
#include "unit.h"
#include "../sched/vsched.h"
#include <pthread.h>
#include <stdatomic.h>
#define GC_IMPL 1
#include "gc-assert.h"
#include "gc-inline.h"
#include "gc-ref.h"
#include "gc-edge.h"
struct gc_heap; struct gc_tracer { struct gc_root *v; size_t n, cap; };
struct gc_trace_worker; struct gc_trace_worker_data;
#include "tracer.h"
static inline void trace_one(struct gc_ref r, struct gc_heap *h, struct gc_trace_worker *w) {}
static inline void trace_root(struct gc_root r, struct gc_heap *h, struct gc_trace_worker *w) {}
#include "field-set.h"
static inline void gc_tracer_add_root(struct gc_tracer *t, struct gc_root r) {
  if (t->n == t->cap) t->v = realloc(t->v, (t->cap = 2 * t->cap + 8) * sizeof *t->v);
  t->v[t->n++] = r;
}

static char *buf; static size_t len, cap;
static void say(const char *o, long e, int k) {
  vs_pause();
  if (cap - len < 200) buf = realloc(buf, cap = cap * 2 + 4096);
  len += snprintf(buf + len, cap - len, "{\"o\":\"%s\",\"e\":%ld,\"k\":%d}\n", o, e, k);
  vs_resume();
}
static void dump(const char *last) { fwrite(buf, 1, len, U_out); OUT("%s", last); fflush(U_out); }
static void crash(int sig) { char b[64]; snprintf(b, sizeof b, "{\"o\":\"crash\",\"sig\":%d}\n", sig); dump(b); _exit(4); }
static void on_stuck(const char *why) { dump("{\"o\":\"bad\"}\n"); _exit(3); }

static struct gc_field_set S; static long next_e = 1; static int quota, keepers;
static struct gc_field_set_writer writers[4];
static void put(struct gc_field_set_writer *w) {
  vs_pause(); long e = next_e++; vs_resume();
  say("log", e, 0);
  gc_field_set_writer_add_edge(w, gc_edge((void*)(e * 16)));
}
static void *mutator(void *a) {
  int t = (intptr_t)a;
  // A mutator that blocks or starts a collection hands in its buffer.
  for (int i = vs_random(quota + 1); i; i--) { put(&writers[t]); if (!vs_random(30)) gc_field_set_writer_release_buffer(&writers[t]); }
  gc_field_set_writer_release_buffer(&writers[t]);
  return NULL;
}
static struct gc_tracer T; static atomic_size_t nextroot; static int logging;
static int visit(struct gc_edge e, struct gc_heap *h, void *w) {
  int keep = vs_random(100) < keepers;
  say("visit", gc_edge_address(e) % 16 ? 9999999 : gc_edge_address(e) / 16, keep);
  if (logging && !vs_random(4)) put(w);
  return keep;
}
static void *worker(void *a) {
  struct gc_field_set_writer w;
  gc_field_set_writer_init(&w, &S);
  for (size_t i; (i = atomic_fetch_add(&nextroot, 1)) < T.n;)
    gc_field_set_visit_edge_buffer(&S, T.v[i].edge_buffer, visit, NULL, &w);
  gc_field_set_writer_release_buffer(&w);
  return NULL;
}
static void forget(struct gc_edge e, struct gc_heap *h) { say("forget", gc_edge_address(e) / 16, 0); }

int main(int argc, char **argv) {
  unit_args(argc, argv);
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGFPE };
  for (int i = 0; i < 6; i++) signal(sigs[i], crash);
  vs_init(); vs_on_stuck = on_stuck;
  gc_field_set_init(&S);
  OUT("{\"o\":\"reset\"}\n");
  for (int r = 0; r < U_n; r++) {
    pthread_t th[4]; int nt = 1 + rnd(4);
    quota = U_x ? U_x : rnd(3) ? rnd(30) : rnd(8); keepers = rnd(3) ? rnd(101) : 100 * rnd(2); logging = rnd(2);
    for (intptr_t i = 0; i < nt; i++) { gc_field_set_writer_init(&writers[i], &S); pthread_create(&th[i], NULL, mutator, (void*)i); }
    for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
    int k = rnd(10);
    if (k < 7) {
      T.n = 0; atomic_store(&nextroot, 0);
      say("minor", 0, 0);
      gc_field_set_add_roots(&S, &T);
      int nw = rnd(4);
      for (intptr_t i = 0; i < nw; i++) pthread_create(&th[i], NULL, worker, NULL);
      worker(NULL);
      for (int i = 0; i < nw; i++) pthread_join(th[i], NULL);
      say("endminor", 0, 0);
    } else if (k < 9) {
      say("major", 0, 0); gc_field_set_clear(&S, forget, NULL); say("endmajor", 0, 1);
    } else {
      say("major", 0, 0); gc_field_set_clear(&S, NULL, NULL); say("endmajor", 0, 0);
    }
  }
  dump("{\"o\":\"end\"}\n");
  return 0;
}
