#define _GNU_SOURCE
#include "vsched.h"
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256
enum { RUN, MUTEX, COND, TIMED, JOIN, DONE };
#define NBUF 8
static struct thr {
  int st; const void *on; int timed_out, yielded, ran; unsigned pri;
  unsigned long sleep_until;
  pthread_t real; pthread_cond_t cv; void *(*f)(void*); void *arg, *ret;
  struct { void *p; uint64_t v; int size; } buf[NBUF]; int nbuf;
} T[MAXT];
static int nt = 1, cur, active;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static __thread int self;
static uint64_t rs;
static unsigned long steps, switches, limit = 60000000;
static unsigned run_len = 50, delay, prio; static int tso; static long left;
void (*vs_on_stuck)(const char *why);

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void*), void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);

static uint64_t next(void) {
  uint64_t z = (rs += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
unsigned vs_random(unsigned n) { return n ? (next() >> 16) % n : 0; }
static void new_run(void) { left = run_len <= 1 ? 0 : vs_random(2 * run_len); }
int vs_self(void) { return self; }
unsigned long vs_steps(void) { return steps; }
unsigned long vs_switches(void) { return switches; }
unsigned vs_threads_seen(void) { unsigned n = 0; for (int i = 0; i < nt; i++) n += T[i].ran; return n; }
static unsigned long env(const char *n, unsigned long d) { const char *s = getenv(n); return s ? strtoul(s, 0, 10) : d; }
void vs_init(void) {
  rs = env("VS_SEED", 1) * 0x9e3779b97f4a7c15ull + 99; run_len = env("VS_RUN", 50); limit = env("VS_LIMIT", limit);
  delay = env("VS_DELAY", 0); prio = env("VS_PRIO", 0); tso = env("VS_TSO", 0);
  __real_pthread_cond_init(&T[0].cv, NULL); T[0].real = pthread_self(); T[0].st = RUN;
  new_run();
  active = 1;
}
static void stuck(const char *why) {
  active = 0;
  if (vs_on_stuck) vs_on_stuck(why);
  fprintf(stderr, "vsched: %s\n", why); _exit(5);
}

// ------------------------------------------------------------ store buffers
static void put(void *p, uint64_t v, int size) {
  switch (size) {
  case 1: __atomic_store_n((uint8_t*)p, v, __ATOMIC_SEQ_CST); break;
  case 2: __atomic_store_n((uint16_t*)p, v, __ATOMIC_SEQ_CST); break;
  case 4: __atomic_store_n((uint32_t*)p, v, __ATOMIC_SEQ_CST); break;
  default: __atomic_store_n((uint64_t*)p, v, __ATOMIC_SEQ_CST); break;
  }
}
static void drain_one(struct thr *t) {
  put(t->buf[0].p, t->buf[0].v, t->buf[0].size);
  memmove(t->buf, t->buf + 1, sizeof t->buf[0] * --t->nbuf);
}
static void drain(struct thr *t) { while (t->nbuf) drain_one(t); }
// The thread is about to access p other than by an atomic store.
static void own(void *p, int size) {
  struct thr *t = &T[self];
  if (!t->nbuf) return;
  for (int i = 0; i < t->nbuf; i++) {
    char *a = t->buf[i].p, *b = p;
    if (a < b + size && b < a + t->buf[i].size) { drain(t); return; }
  }
}
static void background_drain(void) {
  if (!tso) return;
  for (int i = 0; i < nt; i++) if (T[i].nbuf && vs_random(8) == 0) drain_one(&T[i]);
}

// ---------------------------------------------------------------- scheduler
static int pick(void) {
  static int c[MAXT], y[MAXT], t[MAXT], z[MAXT];
  int n = 0, ny = 0, tn = 0, zn = 0;
  for (int i = 0; i < nt; i++) {
    if (T[i].st == RUN) {
      if (T[i].sleep_until > steps) z[zn++] = i;
      else if (T[i].yielded) y[ny++] = i; else c[n++] = i;
    }
    else if (T[i].st == TIMED) t[tn++] = i;
  }
  // A thread that yielded lets others go first, mostly.
  if (n && (!ny || vs_random(16))) {
    if (!prio) return c[vs_random(n)];
    int b = c[0];
    for (int i = 1; i < n; i++) if (T[c[i]].pri > T[b].pri) b = c[i];
    return b;
  }
  // Don't spin for long waiting for a thread that sleeps.
  if (zn && vs_random(32) == 0) { int i = z[vs_random(zn)]; T[i].sleep_until = 0; return i; }
  if (ny) {
    // Nothing else to run: time passes, and a timed wait may end.
    if (!n && tn && vs_random(64) == 0) { int i = t[vs_random(tn)]; T[i].st = RUN; T[i].timed_out = 1; return i; }
    int i = y[vs_random(ny)];
    if (!n) for (int k = 0; k < nt; k++) T[k].yielded = 0;
    return i;
  }
  if (zn) { int i = z[vs_random(zn)]; T[i].sleep_until = 0; return i; }
  if (tn) { int i = t[vs_random(tn)]; T[i].st = RUN; T[i].timed_out = 1; return i; }
  return -1;
}
// Hand over to another thread; the caller's state has been set.
static void reschedule(void) {
  int me = self, nx = pick();
  if (nx < 0) stuck("deadlock");
  new_run();
  background_drain();
  if (nx == me) return;
  switches++;
  __real_pthread_mutex_lock(&big);
  T[nx].ran = 1;
  cur = nx; __real_pthread_cond_signal(&T[nx].cv);
  if (T[me].st != DONE)
    while (cur != me) __real_pthread_cond_wait(&T[me].cv, &big);
  __real_pthread_mutex_unlock(&big);
}
static __thread int paused;
void vs_pause(void) { paused++; }
void vs_resume(void) { paused--; }
static inline void point(int weight) {
  if (!active || paused) return;
  if (++steps > limit) stuck("livelock");
  if (nt == 1) return;
  if (prio && vs_random(prio) == 0) { T[vs_random(nt)].pri = vs_random(1u << 30); left = 0; }
  if (delay && vs_random(delay) == 0) {
    T[self].sleep_until = steps + vs_random(40 * run_len + 20000);
    reschedule();
    return;
  }
  if ((left -= weight) > 0) return;
  reschedule();
}
void vs_point(void) { point(8); }
static int yield(void) {
  if (!active) return 0;
  if (++steps > limit) stuck("livelock");
  drain(&T[self]);
  T[self].yielded = 1; reschedule(); T[self].yielded = 0; return 0;
}
int __wrap_sched_yield(void) { return yield(); }
int __wrap_usleep(unsigned us) { return yield(); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return yield(); }

static void *tramp(void *a) {
  self = (int)(intptr_t)a;
  __real_pthread_mutex_lock(&big);
  while (cur != self) __real_pthread_cond_wait(&T[self].cv, &big);
  __real_pthread_mutex_unlock(&big);
  T[self].ret = T[self].f(T[self].arg);
  drain(&T[self]);
  T[self].st = DONE;
  for (int i = 0; i < nt; i++) if (T[i].st == JOIN && T[i].on == &T[self]) T[i].st = RUN;
  reschedule();
  return T[self].ret;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *arg) {
  if (nt == MAXT) stuck("too many threads");
  int i = nt; memset(&T[i], 0, sizeof T[i]);
  __real_pthread_cond_init(&T[i].cv, NULL); T[i].f = f; T[i].arg = arg; T[i].st = RUN; T[i].pri = vs_random(1u << 30);
  drain(&T[self]);
  nt++;
  int r = __real_pthread_create(&T[i].real, a, tramp, (void*)(intptr_t)i);
  if (r) { nt--; return r; }
  *t = T[i].real;
  point(8);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
  int i; for (i = 0; i < nt; i++) if (pthread_equal(T[i].real, t)) break;
  if (i == nt) stuck("join of an unknown thread");
  while (T[i].st != DONE) { T[self].st = JOIN; T[self].on = &T[i]; reschedule(); }
  if (ret) *ret = T[i].ret;
  return 0;
}

#define NM 65536
static struct mtx { pthread_mutex_t *m; int owner; } M[NM];
static struct mtx *mtx(pthread_mutex_t *m) {
  size_t h = ((uintptr_t)m >> 3) * 0x9e3779b97f4a7c15ull >> 48;
  for (size_t i = 0; i < NM; i++) {
    struct mtx *x = &M[(h + i) & (NM - 1)];
    if (x->m == m) return x;
    if (!x->m) { x->m = m; x->owner = -1; return x; }
  }
  stuck("too many mutexes"); return NULL;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mtx(m)->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static void acquire(pthread_mutex_t *m) {
  struct mtx *x = mtx(m);
  while (x->owner >= 0) { T[self].st = MUTEX; T[self].on = m; reschedule(); }
  x->owner = self;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (self == 0 && !active) return 0;
  point(8); drain(&T[self]);
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  point(8); drain(&T[self]);
  struct mtx *x = mtx(m);
  if (x->owner >= 0) return EBUSY;
  x->owner = self;
  return 0;
}
static void wake_mutex(const void *m) {
  for (int i = 0; i < nt; i++) if (T[i].st == MUTEX && T[i].on == m) T[i].st = RUN;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (self == 0 && !active) return 0;
  drain(&T[self]);
  mtx(m)->owner = -1;
  wake_mutex(m);
  point(8);
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static int wait(pthread_cond_t *c, pthread_mutex_t *m, int st) {
  drain(&T[self]);
  point(8);
  mtx(m)->owner = -1; wake_mutex(m);
  T[self].timed_out = 0; T[self].st = st; T[self].on = c;
  reschedule();
  int to = T[self].timed_out;
  acquire(m);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait(c, m, COND); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return wait(c, m, TIMED); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  point(8);
  int w[MAXT], n = 0;
  for (int i = 0; i < nt; i++) if ((T[i].st == COND || T[i].st == TIMED) && T[i].on == c) w[n++] = i;
  if (n) T[w[vs_random(n)]].st = RUN;
  point(8);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  point(8);
  for (int i = 0; i < nt; i++) if ((T[i].st == COND || T[i].st == TIMED) && T[i].on == c) T[i].st = RUN;
  point(8);
  return 0;
}

// ------------------------------------------- the compiler's instrumentation
#define ACC(name, size) void name(void *p) { point(1); own(p, size); }
#define RW(n) ACC(__tsan_read##n, n) ACC(__tsan_write##n, n) ACC(__tsan_unaligned_read##n, n) \
  ACC(__tsan_unaligned_write##n, n) ACC(__tsan_volatile_read##n, n) ACC(__tsan_volatile_write##n, n) \
  ACC(__tsan_unaligned_volatile_read##n, n) ACC(__tsan_unaligned_volatile_write##n, n) \
  ACC(__tsan_read##n##_pc, n) ACC(__tsan_write##n##_pc, n)
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { point(1); own(p, n); }
void __tsan_write_range(void *p, unsigned long n) { point(1); own(p, n); }
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
static int relaxed_store(int mo) { return mo != __ATOMIC_SEQ_CST; }
void __tsan_atomic_thread_fence(int mo) { point(8); if (mo == __ATOMIC_SEQ_CST) drain(&T[self]); }
void __tsan_atomic_signal_fence(int mo) {}
#define SC __ATOMIC_SEQ_CST
#define RMW(B, ty, op) \
  ty __tsan_atomic##B##_##op(volatile ty *p, ty v, int mo) { \
    point(8); drain(&T[self]); return __atomic_##op(p, v, SC); }
#define AT(B, ty) \
  ty __tsan_atomic##B##_load(const volatile ty *p, int mo) { \
    point(8); own((void*)p, sizeof *p); return __atomic_load_n(p, SC); } \
  void __tsan_atomic##B##_store(volatile ty *p, ty v, int mo) { \
    struct thr *t = &T[self]; \
    point(8); \
    if (tso && active && nt > 1 && relaxed_store(mo)) { \
      if (t->nbuf == NBUF) drain_one(t); \
      t->buf[t->nbuf].p = (void*)p; t->buf[t->nbuf].v = (uint64_t)v; t->buf[t->nbuf++].size = sizeof *p; \
      return; } \
    drain(t); __atomic_store_n(p, v, SC); } \
  ty __tsan_atomic##B##_exchange(volatile ty *p, ty v, int mo) { \
    point(8); drain(&T[self]); return __atomic_exchange_n(p, v, SC); } \
  RMW(B, ty, fetch_add) RMW(B, ty, fetch_sub) RMW(B, ty, fetch_and) RMW(B, ty, fetch_or) \
  RMW(B, ty, fetch_xor) RMW(B, ty, fetch_nand) \
  int __tsan_atomic##B##_compare_exchange_strong(volatile ty *p, ty *e, ty d, int mo, int f) { \
    point(8); drain(&T[self]); return __atomic_compare_exchange_n(p, e, d, 0, SC, SC); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile ty *p, ty *e, ty d, int mo, int f) { \
    point(8); drain(&T[self]); \
    if (active && nt > 1 && vs_random(50) == 0) { *e = __atomic_load_n(p, SC); return 0; } \
    return __atomic_compare_exchange_n(p, e, d, 0, SC, SC); } \
  ty __tsan_atomic##B##_compare_exchange_val(volatile ty *p, ty e, ty d, int mo, int f) { \
    point(8); drain(&T[self]); __atomic_compare_exchange_n(p, &e, d, 0, SC, SC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
