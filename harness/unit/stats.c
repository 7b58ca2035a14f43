// Drives the event listener chain, the basic statistics (on a clock of our own)
// and histograms; everything is judged by StatsTrace.tla.
#include "unit.h"
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <inttypes.h>
static uint64_t clk_T, clk_C;    // microseconds
static int fake_gettimeofday(struct timeval *tv, void *tz) {
  // Seconds since the epoch, as they are now.
  uint64_t t = 1790000000ull * 1000000 + clk_T; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
static int fake_clock_gettime(clockid_t c, struct timespec *ts) {
  uint64_t t = c == CLOCK_PROCESS_CPUTIME_ID ? clk_C : 1790000000ull * 1000000 + clk_T;
  ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000 + rnd(1000); return 0;
}
#define gettimeofday fake_gettimeofday
#define clock_gettime fake_clock_gettime
#include "gc-assert.h"
#include "gc-event-listener.h"
#include "gc-histogram.h"
#include "gc-basic-stats.h"
#include "gc-event-listener-chain.h"

GC_DEFINE_HISTOGRAM(h1, 25, 4);
GC_DEFINE_HISTOGRAM(h2, 8, 2);
GC_DEFINE_HISTOGRAM(h3, 12, 0);

// ------------------------------------------------------ recording listeners
struct call { int l; long d, x; const char *e; };
static long unit = 1;   // of sizes in the trace: bytes or kB
static long sz(size_t n) { return n % unit ? -7 : n / unit; }
static struct call calls[16]; static int ncalls; static int next_m;
struct rl { int l; };
struct rm { int l; int m; int magic; };
static void called(int l, long d, long x, const char *e) { if (ncalls < 16) calls[ncalls++] = (struct call){ l, d, x, e }; }
#define HEAP_EV(n) static void r_##n(void *d) { called(((struct rl*)d)->l, 0, 0, #n); }
#define MUT_EV(n) static void r_##n(void *d) { struct rm *m = d; called(m->l, m->magic == 77 + m->l ? m->m : -1, 0, #n); }
static void r_init(void *d, size_t s) { called(((struct rl*)d)->l, 0, sz(s), "init"); }
HEAP_EV(requesting_stop) HEAP_EV(waiting_for_stop) HEAP_EV(mutators_stopped)
static void r_prepare_gc(void *d, enum gc_collection_kind k) { called(((struct rl*)d)->l, 0, k, "prepare_gc"); }
HEAP_EV(roots_traced) HEAP_EV(heap_traced) HEAP_EV(ephemerons_traced) HEAP_EV(finalizers_traced) HEAP_EV(restarting_mutators)
static void *r_mutator_added(void *d) {
  struct rl *r = d; called(r->l, 0, 0, "mutator_added");
  struct rm *m = malloc(sizeof *m); *m = (struct rm){ r->l, next_m, 77 + r->l }; return m;
}
MUT_EV(mutator_cause_gc) MUT_EV(mutator_stopping) MUT_EV(mutator_stopped) MUT_EV(mutator_restarted)
static void r_mutator_removed(void *d) { struct rm *m = d; called(m->l, m->magic == 77 + m->l ? m->m : -1, 0, "mutator_removed"); m->magic = 0; free(m); }
static void r_heap_resized(void *d, size_t s) { called(((struct rl*)d)->l, 0, sz(s), "heap_resized"); }
static void r_live_data_size(void *d, size_t s) { called(((struct rl*)d)->l, 0, sz(s), "live_data_size"); }
#define REC ((struct gc_event_listener) { \
  .init = r_init, .requesting_stop = r_requesting_stop, .waiting_for_stop = r_waiting_for_stop, .mutators_stopped = r_mutators_stopped, \
  .prepare_gc = r_prepare_gc, .roots_traced = r_roots_traced, .heap_traced = r_heap_traced, .ephemerons_traced = r_ephemerons_traced, \
  .finalizers_traced = r_finalizers_traced, .restarting_mutators = r_restarting_mutators, .mutator_added = r_mutator_added, \
  .mutator_cause_gc = r_mutator_cause_gc, .mutator_stopping = r_mutator_stopping, .mutator_stopped = r_mutator_stopped, \
  .mutator_restarted = r_mutator_restarted, .mutator_removed = r_mutator_removed, .heap_resized = r_heap_resized, .live_data_size = r_live_data_size })

static struct gc_basic_stats stats;
static void ev(const char *e, long x, int minor, int m) {
  uint64_t n = 0;
  for (size_t i = 0; i < gc_latency_size(); i++) n += gc_latency_ref(&stats.pause_times, i);
  OUT("{\"o\":\"ev\",\"e\":\"%s\",\"x\":%ld,\"minor\":%d,\"m\":%d,\"T\":%lu,\"C\":%lu,\"calls\":[", e, x, minor, m, (long)clk_T, (long)clk_C);
  for (int i = 0; i < ncalls; i++) OUT("%s[%d,%ld,%ld]", i ? "," : "", strcmp(calls[i].e, e) ? 99 : calls[i].l, calls[i].d, calls[i].x);
  OUT("],\"n\":%lu,\"st\":[%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu]}\n", (long)n,
      (long)stats.major_collection_count, (long)stats.minor_collection_count, (long)stats.elapsed_mutator_usec, (long)stats.elapsed_collector_usec,
      (long)stats.cpu_mutator_usec, (long)stats.cpu_collector_usec, sz(stats.heap_size), sz(stats.max_heap_size),
      sz(stats.live_data_size), sz(stats.max_live_data_size));
  ncalls = 0;
}
static long us(unsigned long ms, const char *frac) { return ms * 1000 + atol(frac); }
static void print(void) {
  char *buf; size_t len; FILE *f = open_memstream(&buf, &len);
  gc_basic_stats_print(&stats, f); fclose(f);
  unsigned long a, b, v[10]; char fr[10][24]; 
  int n = sscanf(buf, "Completed %lu major collections (%lu minor).\n"
    "%lu.%20[0-9] ms total time (%lu.%20[0-9] stopped); %lu.%20[0-9] ms CPU time (%lu.%20[0-9] stopped).\n"
    "%lu.%20[0-9] ms median pause time, %lu.%20[0-9] p95, %lu.%20[0-9] max.\n"
    "Heap size is %lu.%20[0-9] MB (max %lu.%20[0-9] MB); peak live data %lu.%20[0-9] MB.\n",
    &a, &b, &v[0], fr[0], &v[1], fr[1], &v[2], fr[2], &v[3], fr[3], &v[4], fr[4], &v[5], fr[5], &v[6], fr[6],
    &v[7], fr[7], &v[8], fr[8], &v[9], fr[9]);
  if (n != 22) { OUT("{\"o\":\"bad\",\"what\":\"print\",\"n\":%d}\n", n); exit(3); }
  OUT("{\"o\":\"print\",\"u\":%ld,\"q\":[%lu,%lu", unit, a, b);
  for (int i = 0; i < 10; i++) { long x = us(v[i], fr[i]); OUT(",%ld", x > 2000000000 || x < 0 ? -1 : x); if (strlen(fr[i]) != 3) exit(3); }
  OUT("]}\n"); free(buf);
}
static unsigned value(int max_log) { return rnd(4) == 0 ? rnd(40) : rnd(6) == 0 ? (1u << rnd(max_log + 1)) - rnd(2) : rnd64() >> (64 - 1 - rnd(max_log)); }
static long big(uint64_t v) { return v > 2000000000ull ? -1 : (long)v; }
#define HIST(h, name, i, bits, prec) static struct name h = { { 0 } }; \
  static void use_##name(void) { \
    switch (rnd(8)) { \
    case 0: OUT("{\"o\":\"count\",\"h\":%d,\"r\":%ld}\n", i, big(name##_count(&h))); break; \
    case 1: OUT("{\"o\":\"min\",\"h\":%d,\"r\":%ld}\n", i, big(name##_min(&h))); break; \
    case 2: OUT("{\"o\":\"max\",\"h\":%d,\"r\":%ld}\n", i, big(name##_max(&h))); break; \
    case 3: { int k = rnd(3) ? rnd(1001) : (int[]){ 500, 950, 990, 1000, 0 }[rnd(5)]; \
      OUT("{\"o\":\"pct\",\"h\":%d,\"k\":%d,\"r\":%ld}\n", i, k, big(k == 500 ? name##_median(&h) : name##_percentile(&h, k / 1000.0))); break; } \
    case 4: { size_t x = rnd(3) ? rnd(name##_size()) : name##_size() - 1 - rnd(2); \
      OUT("{\"o\":\"ref\",\"h\":%d,\"i\":%zu,\"size\":%zu,\"lo\":%ld,\"r\":%ld}\n", i, x, name##_size(), big(name##_bucket_min_val(x)), big(name##_ref(&h, x))); break; } \
    default: { unsigned v = value(bits + prec); uint64_t w = v; \
      if (rnd(24) == 0) { v = 1 << 30; w = 1ULL << (30 + rnd(34)) | (rnd64() >> (34 + rnd(30))); /* any large value */ } \
      name##_record(&h, w); OUT("{\"o\":\"rec\",\"h\":%d,\"v\":%u}\n", i, v); } \
    } }
HIST(H1, h1, 1, 25, 4) HIST(H2, h2, 2, 8, 2) HIST(H3, h3, 3, 12, 0)

int main(int argc, char **argv) {
  unit_args(argc, argv);
  OUT("{\"o\":\"reset\"}\n");
  struct rl A = { 1 }, B = { 2 };
  struct gc_event_listener_chain in, outer;
  struct gc_event_listener L = GC_EVENT_LISTENER_CHAIN;
  switch (U_mode % 3) {
  case 0: in = GC_EVENT_LISTENER_CHAIN_DATA(REC, &B, GC_BASIC_STATS, &stats);
          outer = GC_EVENT_LISTENER_CHAIN_DATA(REC, &A, GC_EVENT_LISTENER_CHAIN, &in); break;
  case 1: in = GC_EVENT_LISTENER_CHAIN_DATA(GC_BASIC_STATS, &stats, REC, &B);
          outer = GC_EVENT_LISTENER_CHAIN_DATA(GC_EVENT_LISTENER_CHAIN, &in, REC, &A); break;
  default: in = GC_EVENT_LISTENER_CHAIN_DATA(REC, &A, REC, &B);
          outer = GC_EVENT_LISTENER_CHAIN_DATA(GC_BASIC_STATS, &stats, GC_EVENT_LISTENER_CHAIN, &in);
  }
  void *D = &outer;
  memset(&stats, 0x5a, sizeof stats);
  clk_T = rnd(1000000); clk_C = rnd(1000000);
  if (U_mode / 3 % 2) unit = 1000;
  size_t s = rnd(900000000); L.init(D, s * unit); ev("init", s, 0, 0);
  void *mut[6] = { 0 }; int mid[6], nm = 0;
  long maxT = 1900000000;
  for (long n = 0; n < U_n; n++) {
    if (rnd(3)) { (void (*[])(void)){ use_h1, use_h2, use_h3 }[rnd(3)](); continue; }
    unsigned dt = rnd(30) ? rnd(60000) : rnd(30) ? rnd(4000000) : (1u << 28) - 2 + rnd(4);
    if (clk_T + dt > maxT) dt = 0;
    clk_T += dt; clk_C += rnd(dt + 1);
    int k = rnd(20), i = rnd(6);
#define EV(n) do { L.n(D); ev(#n, 0, 0, 0); } while (0)
    switch (k) {
    case 0: case 1: EV(requesting_stop); break;
    case 2: EV(waiting_for_stop); break;
    case 3: EV(mutators_stopped); break;
    case 4: case 5: { enum gc_collection_kind g = (enum gc_collection_kind[]){ GC_COLLECTION_MINOR, GC_COLLECTION_MAJOR, GC_COLLECTION_COMPACTING }[rnd(3)];
      L.prepare_gc(D, g); ev("prepare_gc", g, g == GC_COLLECTION_MINOR, 0); break; }
    case 6: EV(roots_traced); break;
    case 7: EV(heap_traced); break;
    case 8: EV(ephemerons_traced); break;
    case 9: EV(finalizers_traced); break;
    case 10: case 11: EV(restarting_mutators); break;
    case 12: case 13: s = rnd(1900000000); L.heap_resized(D, s * unit); ev("heap_resized", s, 0, 0); break;
    case 14: case 15: s = rnd(1900000000); L.live_data_size(D, s * unit); ev("live_data_size", s, 0, 0); break;
    case 16: if (rnd(2)) print(); else { gc_basic_stats_finish(&stats); ev("finish", 0, 0, 0); } break;
    default:
      if (!mut[i]) { next_m = mid[i] = ++nm; mut[i] = L.mutator_added(D); ev("mutator_added", 0, 0, mid[i]); break; }
#define MV(n) do { L.n(mut[i]); ev(#n, 0, 0, mid[i]); } while (0)
      switch (rnd(9)) {
      case 0: case 1: MV(mutator_cause_gc); break;
      case 2: case 3: MV(mutator_stopping); break;
      case 4: case 5: MV(mutator_stopped); break;
      case 6: case 7: MV(mutator_restarted); break;
      default: MV(mutator_removed); mut[i] = NULL;
      }
    }
  }
  OUT("{\"o\":\"end\"}\n"); fclose(U_out); return 0;
}
