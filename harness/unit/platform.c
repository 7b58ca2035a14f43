// Drives the platform layer (reservations, memory, clock, stacks) and the byte
// scans of metadata; everything is judged by PlatformTrace.tla.
#include "unit.h"
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#define GC_IMPL 1
#include "gc-assert.h"
#include "swar.h"
#include "gc-platform.h"
#define PG 4096
#define MAXR 10
static struct { uintptr_t base; size_t n; int whole; struct gc_reservation r; unsigned char acq[256]; } R[MAXR];
static uintptr_t origin;
static int pfd[2];
static long P(uintptr_t a) { return (long)(a / PG) - (long)origin; }
static long vm(void) {            // pages of address space in use
  char b[200]; int f = open("/proc/self/statm", O_RDONLY), n = read(f, b, sizeof b - 1); close(f);
  b[n > 0 ? n : 0] = 0; return atol(b);
}
static int accessible(void *p) {
  char c; if (write(pfd[1], p, 1) != 1) return 0;
  return read(pfd[0], &c, 1) == 1;
}
static long page_value(uintptr_t a) {
  if (!accessible((void*)a)) return -1;
  uint32_t *w = (void*)a, v = w[0];
  if (w[PG / 4 - 1] != v) return -2;
  for (int i = 1; i < PG / 4 - 1; i++) if (w[i] != (i % 97 == 3 ? v : 0)) return -3;
  return v;
}
static void page_set(uintptr_t a, uint32_t v) {
  uint32_t *w = (void*)a; w[0] = w[PG / 4 - 1] = v;
  for (int i = 1; i < PG / 4 - 1; i++) w[i] = i % 97 == 3 ? v : 0;
}
static int pick(int full) { for (int k = 0; k < 40; k++) { int i = rnd(MAXR); if ((R[i].n != 0) == full) return i; } return -1; }
// A range of acquired pages.
static int range(int i, size_t *lo, size_t *n) {
  size_t s = rnd(R[i].n); if (!R[i].acq[s]) return 0;
  size_t e = s; while (e < R[i].n && R[i].acq[e] && (e == s || rnd(8))) e++;
  *lo = s; *n = e - s; return 1;
}
static void *stack_thread(void *want) {
  uintptr_t b = gc_platform_current_thread_stack_base();
  *(uintptr_t*)want = b; return NULL;
}
static void scan(void) {
  _Alignas(16) static uint8_t buf[512];
  int words = 1 + rnd(rnd(4) ? 6 : 40), start = rnd(8), limit = words * 8 - start, k = rnd(3), bits = 1 + rnd(7);
  uint8_t mask = k ? (1 << bits) - 1 : 1 << rnd(8), t1 = k ? 1 + rnd(mask) : 0, t2 = k ? 1 + rnd(mask) : 0;
  if (k == 0 && rnd(3) == 0) mask = 1 + rnd(255);
  if (t1 > mask) t1 = mask;
  if (t2 > mask) t2 = mask;
  int rare = rnd(4), none = rnd(5) == 0;
  for (int i = 0; i < 512; i++) {
    uint8_t b = rnd(256);
    // Outside of what is scanned, everything matches.
    if (i < start || i >= words * 8) b = k ? (b & ~mask) | t1 : 0xff;
    else if (none || (rare && rnd(20 * rare))) {
      while (k ? (b & mask) == t1 || (k == 2 && (b & mask) == t2) : b & mask) b = k ? rnd(mask > 2 || k == 1 ? 256 : 1) : b & ~mask;
    }
    buf[i] = b;
  }
  if (limit <= 0) return;
  size_t lim = limit;
  if (k == 0 && rnd(3) == 0) lim = -1;     // up to a match that there is
  size_t r = k == 0 ? scan_for_byte_with_bits(buf + start, lim, mask) : k == 1 ? scan_for_byte_with_tag(buf + start, lim, mask, t1)
    : scan_for_byte_with_tags(buf + start, lim, mask, t1, t2);
  int shown = lim == (size_t)-1 ? 512 - start : limit;
  OUT("{\"o\":\"scan\",\"k\":%d,\"mask\":%d,\"t1\":%d,\"t2\":%d,\"limit\":%d,\"r\":%ld,\"s\":[", k, mask, t1, t2, shown, r > 100000 ? -1 : (long)r);
  for (int i = 0; i < shown; i++) OUT("%s%d", i ? "," : "", buf[start + i]);
  OUT("]}\n");
}
int main(int argc, char **argv) {
  unit_args(argc, argv);
  static char obuf[1 << 16]; setvbuf(U_out, obuf, _IOFBF, sizeof obuf);
  if (pipe(pfd)) return 2;
  gc_platform_init();
  void *m = mmap(NULL, PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  origin = ((uintptr_t)m / PG - (1 << 29)) & ~(uintptr_t)0xfffff;    // keeps alignments
  OUT("{\"o\":\"reset\",\"vm\":%ld}\n", vm());
  OUT("{\"o\":\"page\",\"r\":%ld,\"want\":%ld}\n", (long)gc_platform_page_size(), (long)sysconf(_SC_PAGESIZE));
  for (long k = 0; k < U_n; k++) {
    int i, op = rnd(22); size_t lo, n;
    if (op < 6) { scan(); continue; }
    if (op < 8 && (i = pick(0)) >= 0) {
      n = 1 + rnd(rnd(3) ? 12 : 250); size_t a = rnd(4) == 0 ? 0 : (size_t)1 << rnd(rnd(3) ? 6 : 12);
      int whole = rnd(2);
      if (whole) {
        R[i].base = (uintptr_t)gc_platform_acquire_memory(n * PG, a * PG);
        memset(R[i].acq, 1, n);
        OUT("{\"o\":\"racquire\",\"lo\":%ld,\"n\":%zu,\"a\":%zu,\"vm\":%ld}\n", P(R[i].base), n, a, vm());
      } else {
        R[i].r = gc_platform_reserve_memory(n * PG, a * PG); R[i].base = R[i].r.base;
        memset(R[i].acq, 0, n);
        OUT("{\"o\":\"reserve\",\"lo\":%ld,\"n\":%zu,\"a\":%zu,\"size\":%ld,\"vm\":%ld}\n", P(R[i].base), n, a, (long)(R[i].r.size / PG), vm());
      }
      if (R[i].base % PG) { OUT("{\"o\":\"bad\",\"what\":\"alignment\"}\n"); return 3; }
      R[i].n = n; R[i].whole = whole;
      continue;
    }
    if (op == 21) {
      switch (rnd(4)) {
      case 0: { cpu_set_t s, t; CPU_ZERO(&s); sched_getaffinity(0, sizeof s, &s); CPU_ZERO(&t);
        int have = CPU_COUNT(&s), want = 0;
        for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &s) && (rnd(2) || have == 1)) { CPU_SET(c, &t); want++; }
        if (!want || sched_setaffinity(0, sizeof t, &t)) break;
        OUT("{\"o\":\"cpus\",\"r\":%d,\"want\":%d}\n", gc_platform_processor_count(), want);
        sched_setaffinity(0, sizeof s, &s); break; }
      case 1: case 2: { struct timespec a, b; static time_t s0;
        clock_gettime(CLOCK_MONOTONIC, &a); uint64_t t = gc_platform_monotonic_nanoseconds(); clock_gettime(CLOCK_MONOTONIC, &b);
        if (!s0) s0 = a.tv_sec;
        // In microseconds of this run.
        long x = (a.tv_sec - s0) * 1000000 + a.tv_nsec / 1000, y = (b.tv_sec - s0) * 1000000 + b.tv_nsec / 1000,
          z = (long)(t / 1000) - (long)s0 * 1000000;
        if (z > 2000000000 || z < -1) z = -1;
        OUT("{\"o\":\"clock\",\"before\":%ld,\"r\":%ld,\"after\":%ld}\n", x, z, y); break; }
      default: {
        // A thread on a stack of our own.
        size_t size = (8 + rnd(9)) * 16384; void *st = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, size);
        pthread_t th; uintptr_t b = 0;
        if (pthread_create(&th, &at, stack_thread, &b) == 0) {
          pthread_join(th, NULL);
          OUT("{\"o\":\"stack\",\"r\":%ld,\"want\":%ld}\n", P(b), P((uintptr_t)st + size));
        }
        pthread_attr_destroy(&at); munmap(st, size); break; }
      }
      // Threads leave memory behind.
      OUT("{\"o\":\"vm\",\"vm\":%ld}\n", vm());
      continue;
    }
    if ((i = pick(1)) < 0) continue;
    switch (op) {
    case 8: case 9: case 10:
      if (R[i].whole) break;
      lo = rnd(R[i].n); n = 1 + rnd(R[i].n - lo);
      void *p = gc_platform_acquire_memory_from_reservation(R[i].r, lo * PG, n * PG);
      memset(R[i].acq + lo, 1, n);
      OUT("{\"o\":\"acquire\",\"at\":%ld,\"lo\":%ld,\"n\":%zu,\"vm\":%ld}\n", P(R[i].base) + (long)lo, P((uintptr_t)p), n, vm());
      break;
    case 11: case 12: case 13:
      if (!range(i, &lo, &n)) break;
      for (; n; n--, lo++) { uint32_t v = 1 + rnd(1000000); page_set(R[i].base + lo * PG, v); OUT("{\"o\":\"write\",\"lo\":%ld,\"v\":%u}\n", P(R[i].base) + (long)lo, v); }
      break;
    case 14: if (range(i, &lo, &n)) OUT("{\"o\":\"populate\",\"lo\":%ld,\"n\":%zu,\"r\":%d}\n", P(R[i].base) + (long)lo, n, gc_platform_populate_memory((void*)(R[i].base + lo * PG), n * PG)); break;
    case 15: if (range(i, &lo, &n)) OUT("{\"o\":\"discard\",\"lo\":%ld,\"n\":%zu,\"r\":%d}\n", P(R[i].base) + (long)lo, n, gc_platform_discard_memory((void*)(R[i].base + lo * PG), n * PG)); break;
    case 16:
      if (rnd(2)) break;
      if (R[i].whole) gc_platform_release_memory((void*)R[i].base, R[i].n * PG); else gc_platform_release_reservation(R[i].r);
      OUT("{\"o\":\"release\",\"lo\":%ld,\"n\":%zu,\"vm\":%ld}\n", P(R[i].base), R[i].n, vm());
      R[i].n = 0; break;
    default: lo = rnd(R[i].n); OUT("{\"o\":\"read\",\"lo\":%ld,\"r\":%ld}\n", P(R[i].base) + (long)lo, page_value(R[i].base + lo * PG));
    }
  }
  OUT("{\"o\":\"end\"}\n"); fclose(U_out); return 0;
}
