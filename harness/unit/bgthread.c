// Drives the background thread of the parallel collectors: tasks are added
// and removed by several threads while it runs.  Judged by
// spec/Background.tla.
#include "unit.h"
#include "../sched/vsched.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <time.h>
#define GC_IMPL 1
#include "gc-assert.h"
#include "background-thread.h"

static char *buf; static size_t len, cap;
static void say(const char *o, int t, long tag, int prio) {
  vs_pause();
  if (cap - len < 200) buf = realloc(buf, cap = cap * 2 + 4096);
  len += snprintf(buf + len, cap - len, "{\"o\":\"%s\",\"t\":%d,\"tag\":%ld,\"p\":%d}\n", o, t, tag, prio);
  vs_resume();
}
static void dump(const char *last) { fwrite(buf, 1, len, U_out); OUT("%s", last); fflush(U_out); }
static void crash(int sig) { char b[64]; snprintf(b, sizeof b, "{\"o\":\"crash\",\"sig\":%d}\n", sig); dump(b); _exit(4); }
static void on_stuck(const char *why) { dump("{\"o\":\"bad\"}\n"); _exit(3); }

static struct gc_background_thread *B; static atomic_long runs, next_tag = 1;
static void run(void *data) {
  say("run", 0, (long)data, 0);
  for (int i = vs_random(20); i; i--) vs_point();
  atomic_fetch_add(&runs, 1);
}
static struct { long tag; int id; } mine[5][64]; static int n_mine[5];
static void add(int t, int any) {
  static const int ps[] = { GC_BACKGROUND_TASK_START, GC_BACKGROUND_TASK_MIDDLE, GC_BACKGROUND_TASK_END };
  int p = any ? (int)vs_random(7) - 3 : ps[vs_random(3)];
  long tag = atomic_fetch_add(&next_tag, 1);
  say("addb", t, tag, p);
  int id = gc_background_thread_add_task(B, p, run, (void*)tag);
  say("e", t, tag, 0);
  mine[t][n_mine[t]].tag = tag; mine[t][n_mine[t]++].id = id;
}
static void rem(int t) {
  int i = vs_random(n_mine[t]); long tag = mine[t][i].tag; int id = mine[t][i].id;
  mine[t][i] = mine[t][--n_mine[t]];
  say("remb", t, tag, 0);
  gc_background_thread_remove_task(B, id);
  say("e", t, tag, 0);
}
static int steps;
static void *user(void *a) {
  int t = (intptr_t)a;
  for (int i = 0; i < steps; i++) {
    if (n_mine[t] < 60 && (!n_mine[t] || vs_random(100) < 60)) add(t, U_x % 2); else rem(t);
    for (int k = vs_random(60); k; k--) vs_point();
  }
  return NULL;
}
int main(int argc, char **argv) {
  unit_args(argc, argv);
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGFPE };
  for (int i = 0; i < 6; i++) signal(sigs[i], crash);
  vs_init(); vs_on_stuck = on_stuck;
  OUT("{\"o\":\"reset\"}\n");
  for (int r = 0; r < U_n; r++) {
    memset(n_mine, 0, sizeof n_mine);
    say("make", 1, 0, 0);
    B = gc_make_background_thread();
    for (int i = rnd(6); i; i--) if (n_mine[1] && !rnd(4)) rem(1); else add(1, U_x % 2);
    for (int i = rnd(100); i; i--) vs_point();
    say("start", 1, 0, 0);
    gc_background_thread_start(B);
    pthread_t th[3]; int nt = rnd(4); steps = rnd(14);
    for (intptr_t i = 0; i < nt; i++) pthread_create(&th[i], NULL, user, (void*)(i + 2));
    user((void*)1);
    for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
    // Registered tasks run again and again.
    int total = 0; for (int t = 1; t < 5; t++) total += n_mine[t];
    if (total) { long goal = atomic_load(&runs) + rnd(2 * total) + 1; while (atomic_load(&runs) < goal) sched_yield(); }
    // As when heaps end, tasks may or may not be removed first.
    if (rnd(2)) while (n_mine[1]) rem(1);
    say("destb", 1, 0, 0);
    gc_destroy_background_thread(B);
    say("e", 1, 0, 0);
    for (int i = rnd(100); i; i--) vs_point();
  }
  dump("{\"o\":\"end\"}\n");
  return 0;
}
