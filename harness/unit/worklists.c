// Drives the worklists of the tracers; under the deterministic scheduler
// (harness/sched) for the shared ones.  Operations are recorded with their
// beginnings and ends, and judged by spec/Worklist.tla.
#include "unit.h"
#include "../sched/vsched.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#define GC_IMPL 1
#include "gc-assert.h"
#include "gc-ref.h"
#include "gc-edge.h"
#include "gc-platform.h"
#include "local-worklist.h"
#include "shared-worklist.h"
#include "root-worklist.h"
#include "simple-worklist.h"

#define MAXR 60000
static struct rec { int t, b, op; long r; int n; long *xs; } *R; static int nr;
static const char *names[] = { "push", "pop", "steal", "can", "take", "size", "full" };
enum { PUSH, POP, STEAL, CAN, TAKE, SIZE, FULL };
static void dump(const char *last);
static int B(int t, int op, int n, long *xs) {
  vs_pause();
  if (nr + 2 > MAXR) { dump("{\"o\":\"bad\"}\n"); _exit(3); }
  int i = nr++; R[i].t = t; R[i].b = -1; R[i].op = op; R[i].r = -1; R[i].n = n;
  if (n) { R[i].xs = malloc(n * sizeof(long)); memcpy(R[i].xs, xs, n * sizeof(long)); }
  vs_resume();
  return i;
}
static void E(int t, int b, long r) { vs_pause(); R[b].r = r; R[nr].t = t; R[nr++].b = b; vs_resume(); }
static void dump(const char *last) {
  for (int i = 0; i < nr; i++) {
    struct rec *r = &R[i];
    if (r->b >= 0) { OUT("{\"o\":\"e\",\"t\":%d}\n", r->t); continue; }
    OUT("{\"o\":\"b\",\"t\":%d,\"op\":\"%s\",\"r\":%ld,\"xs\":[", r->t, names[r->op], r->r);
    for (int k = 0; k < r->n; k++) OUT("%s%ld", k ? "," : "", r->xs[k]);
    OUT("]}\n");
  }
  OUT("%s", last); fflush(U_out);
}
static void crash(int sig) {
  char b[64]; snprintf(b, sizeof b, "{\"o\":\"crash\",\"sig\":%d}\n", sig); dump(b); _exit(4);
}
static void on_stuck(const char *why) { dump("{\"o\":\"bad\"}\n"); _exit(3); }

static struct gc_ref ref(long x) { return gc_ref(x * 16); }
static long unref(struct gc_ref r) { return gc_ref_value(r) % 16 ? 999999 : (long)(gc_ref_value(r) / 16); }
static long next_x = 1;

// ------------------------------------------------------------ shared deque
static struct shared_worklist Q; static _Atomic int over;
static int take(int t, int op, int many) {
  int b = B(t, op, 0, NULL);
  long x = op == CAN ? !!shared_worklist_can_steal(&Q)
    : unref(op == POP ? shared_worklist_try_pop(&Q) : shared_worklist_steal(&Q));
  E(t, b, x);
  return x != 0;
}
static void *thief(void *a) {
  int t = (intptr_t)a;
  while (!atomic_load(&over) && nr < MAXR - 3000) {
    int k = vs_random(10);
    if (k < 7) take(t, STEAL, 0); else if (k < 9) take(t, CAN, 0); else for (int i = vs_random(100); i; i--) vs_point();
    if (vs_random(4) == 0) sched_yield();
  }
  return NULL;
}
static void shared(void) {
  shared_worklist_init(&Q);
  int nt = 1 + U_x % 3; pthread_t th[3];
  for (intptr_t i = 0; i < nt; i++) pthread_create(&th[i], NULL, thief, (void*)(i + 2));
  int bias = 50;
  for (long i = 0; i < U_n && nr < MAXR - 4000; i++) {
    if (rnd(20) == 0) bias = 20 + rnd(60);
    if (rnd(100) < bias) {
      // Never more than the smallest buffer holds: no tracer pushes more.
      int max = 1 << shared_worklist_buf_min_log_size; if (max > 40) max = 40;
      int n = rnd(3) ? 1 : 1 + rnd(rnd(10) ? 6 : max); long xs[64]; struct gc_ref v[64];
      for (int k = 0; k < n; k++) { xs[k] = next_x++; v[k] = ref(xs[k]); }
      int b = B(1, PUSH, n, xs);
      if (n == 1 && rnd(2)) shared_worklist_push(&Q, v[0]); else shared_worklist_push_many(&Q, v, n);
      E(1, b, 0);
    } else take(1, POP, 0);
    if (rnd(300) == 0) while (take(1, POP, 0)) {}
  }
  // The owner and the thieves together empty it.
  while (take(1, POP, 0)) {}
  atomic_store(&over, 1);
  for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
  while (take(1, POP, 0)) {}
  take(1, STEAL, 0);
  shared_worklist_release(&Q);
  take(1, POP, 0);
  shared_worklist_destroy(&Q);
}
// -------------------------------------------------------------------- roots
static struct root_worklist W;
static void *popper(void *a) {
  int t = (intptr_t)a;
  for (int done = 0; !done;) {
    int b = B(t, POP, 0, NULL);
    struct gc_root r = root_worklist_pop(&W);
    long x = r.kind == GC_ROOT_KIND_NONE ? 0 : r.kind == GC_ROOT_KIND_EDGE ? gc_edge_address(r.edge) / 16 : 999999;
    E(t, b, x);
    done = !x;
  }
  return NULL;
}
static void roots(void) {
  root_worklist_init(&W);
  for (int round = 0; round < 1 + U_n / 60; round++) {
    int n = rnd(3) == 0 ? rnd(4) : rnd(80);
    for (int i = 0; i < n; i++) {
      long x = next_x++; int b = B(1, PUSH, 1, &x);
      root_worklist_push(&W, gc_root_edge(gc_edge((void*)(x * 16))));
      E(1, b, 0);
      if (rnd(8) == 0) { b = B(1, SIZE, 0, NULL); E(1, b, root_worklist_size(&W)); }
    }
    pthread_t th[3]; int nt = rnd(4);
    for (intptr_t i = 0; i < nt; i++) pthread_create(&th[i], NULL, popper, (void*)(i + 2));
    popper((void*)1);
    for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
    root_worklist_reset(&W);
    int b = B(1, SIZE, 0, NULL); E(1, b, root_worklist_size(&W));
  }
  root_worklist_destroy(&W);
}
// --------------------------------------------------------------- sequential
static void local(void) {
  struct local_worklist *q = calloc(1, sizeof *q); local_worklist_init(q);
  int bias = 60; long xs[LOCAL_WORKLIST_SIZE * 2];
  for (long i = 0; i < U_n; i++) {
    if (rnd(LOCAL_WORKLIST_SIZE) == 0) bias = 20 + rnd(70);
    int b, k = rnd(100);
    if (k < bias) {
      b = B(1, FULL, 0, NULL); int full = !!local_worklist_full(q); E(1, b, full);
      if (!full) { long x = next_x++; b = B(1, PUSH, 1, &x); local_worklist_push(q, ref(x)); E(1, b, 0); }
    } else if (k < 97) {
      if (local_worklist_empty(q)) { b = B(1, POP, 0, NULL); E(1, b, 0); }
      else if (rnd(3)) { b = B(1, POP, 0, NULL); E(1, b, unref(local_worklist_pop(q))); }
      else {
        int lim = 1 + rnd(LOCAL_WORKLIST_SIZE); struct gc_ref *v;
        size_t n = local_worklist_pop_many(q, &v, lim);
        if (n > lim) n = 0;
        for (int j = 0; j < n; j++) xs[j] = unref(v[j]);
        b = B(1, TAKE, n, xs); E(1, b, n);
      }
    } else { b = B(1, SIZE, 0, NULL); E(1, b, local_worklist_size(q)); }
  }
}
static void simple(void) {
  struct simple_worklist q; simple_worklist_init(&q);
  int bias = 60; long xs[300]; struct gc_ref v[300];
  for (long i = 0; i < U_n; i++) {
    if (rnd(100) == 0) bias = 30 + rnd(60);
    if (rnd(100) < bias) {
      int n = rnd(4) ? 1 : 1 + rnd(rnd(6) ? 20 : 280);
      if (rnd(60) == 0) n = 1;
      for (int k = 0; k < n; k++) { xs[k] = next_x++; v[k] = ref(xs[k]); }
      int b = B(1, PUSH, n, xs);
      if (n == 1) simple_worklist_push(&q, v[0]); else simple_worklist_push_many(&q, v, n);
      E(1, b, 0);
    } else { int b = B(1, POP, 0, NULL); E(1, b, unref(simple_worklist_pop(&q))); }
    if (rnd(400) == 0) {
      while (1) { int b = B(1, POP, 0, NULL); long x = unref(simple_worklist_pop(&q)); E(1, b, x); if (!x) break; }
      simple_worklist_release(&q);
    }
  }
  while (1) { int b = B(1, POP, 0, NULL); long x = unref(simple_worklist_pop(&q)); E(1, b, x); if (!x) break; }
  simple_worklist_destroy(&q);
}

int main(int argc, char **argv) {
  unit_args(argc, argv);
  R = calloc(MAXR + 8, sizeof *R);
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGFPE };
  for (int i = 0; i < 6; i++) signal(sigs[i], crash);
  vs_init(); vs_on_stuck = on_stuck;
  OUT("{\"o\":\"reset\",\"relaxed\":%d}\n", getenv("VS_TSO") && atoi(getenv("VS_TSO")));
  switch (U_mode) { case 0: shared(); break; case 1: roots(); break; case 2: local(); break; default: simple(); }
  dump("{\"o\":\"end\"}\n");
  return 0;
}
