// Options driver: sets options of a real collector from values and from strings,
// good and bad; every result and the options afterwards are judged by
// spec/OptionsTrace.tla.   options -o FILE -s SEED -n STEPS
#define _GNU_SOURCE
#define GC_IMPL 1
#include <sched.h>
#include <math.h>
#include <stdatomic.h>
#include "../unit/unit.h"
#include "vh-embedder.h"
#include "gc-api.h"
#include "gc-options-internal.h"

_Atomic uint32_t vh_traced[VH_MAX_ID], vh_forwarded[VH_MAX_ID], vh_outside_pause, vh_busy_headers;
_Atomic uint64_t vh_trace_calls, vh_root_calls, vh_heap_root_calls;
_Atomic int vh_in_pause;
int vh_ext_visit(struct gc_ref ref) { abort(); }
void vh_ext_start(int m) {}
void vh_ext_finish(int m) {}
void vh_ext_roots(void (*trace_edge)(struct gc_edge, struct gc_heap*, void*), struct gc_heap *h, void *d) {}

// Limbs, base 10^4.
static void num(const char *name, unsigned __int128 v) {
  OUT("%s[", name);
  for (int i = 0; i < 8; i++, v /= 10000) OUT("%s%d", i ? "," : "", (int)(v % 10000));
  OUT("]");
}
static void str(const char *name, const char *s) {
  OUT("%s[", name);
  for (const char *p = s; *p; p++) OUT("%s%d", p == s ? "" : ",", (unsigned char)*p);
  OUT("]");
}
static unsigned __int128 dbl(double d) { return (unsigned __int128)llround(d * 1000); }
static void values(struct gc_options *o) {
  struct gc_common_options *c = (void*)o;   // it comes first in every collector's options
  OUT(",\"v\":["); num("", c->heap_size_policy); num(",", c->heap_size); num(",", c->maximum_heap_size);
  num(",", dbl(c->heap_size_multiplier)); num(",", dbl(c->heap_expansiveness)); num(",", c->parallelism);
  OUT("]}\n");
}
static const char *names[] = { "heap-size-policy", "heap-size", "maximum-heap-size", "heap-size-multiplier",
  "heap-expansiveness", "parallelism" };
static char *cat(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static const char *pick(const char *const *a, int n) { return a[rnd(n)]; }
#define PICK(...) ({ static const char *const a_[] = { __VA_ARGS__ }; pick(a_, sizeof a_ / sizeof *a_); })

static void gen_name(char *b, int i) {
  switch (rnd(16)) {
  case 0: cat(b, PICK("heap-siz", "heap-size-", "heap", "", "-", "parallelis", "parallelisms", "maximum-heap-siz", "heap-size-policies", "heap-size-multiplie", "expansiveness")); break;
  default: cat(b, names[i]);
  }
}
static char *digits(char *p, int n, int base) {
  if (!n) return p;
  for (int i = 0; i < n; i++) {
    int d = rnd(rnd(3) ? base : 2);
    if (base == 10 && i == 0 && n > 1 && d == 0) d = 1;
    *p++ = "0123456789abcdef"[d];
  }
  *p = 0; return p;
}
// A value; many: only of characters that may occur in a list of settings.
static void gen_value(char *b, int i, int many) {
  char *p = b; *p = 0;
  if (rnd(40) == 0) return;
  if (i == 0 && rnd(3)) { cat(p, PICK("fixed", "growable", "adaptive", "0", "1", "2", "3", "-1", "fixe", "growables", "adaptiv", "02", "0x2", "+1", "-0", "fixed0", "4294967296")); return; }
  if (rnd(12) == 0) *p++ = "+-"[rnd(2)];
  *p = 0;
  if (i == 5 && rnd(2)) { p += sprintf(p, "%u", rnd(3) ? rnd(68) : 62 + rnd(5)); }
  else if (i == 0 || i == 5) {
    switch (rnd(6)) {
    case 0: p = cat(p, PICK("2147483647", "2147483648", "4294967297", "4294967298", "18446744073709551617", "9223372036854775808", "64", "65", "063", "0100", "0x40", "0x41")); break;
    case 1: p = cat(p, "0x"); p = digits(p, rnd(4), 16); break;
    case 2: *p++ = '0'; p = digits(p, rnd(3), 10); break;
    default: p = digits(p, 1 + rnd(3), 10);
    }
  } else if (i == 1 || i == 2) {
    switch (rnd(8)) {
    case 0: p = cat(p, PICK("9223372036854775806", "9223372036854775808", "18446744073709551616", "18446744073709551615", "9007199254740991", "9007199254740992",
                            "8589934591", "8589934592", "8388607", "8388608", "8796093022207", "8796093022208", "4294967296")); break;
    case 1: p = cat(p, "0x"); p = digits(p, rnd(15), 16); break;
    case 2: *p++ = '0'; p = digits(p, rnd(8), 10); break;
    case 3: p = digits(p, 1 + rnd(19), 10); break;
    default: p = digits(p, 1 + rnd(9), 10);
    }
    if (rnd(3)) *p++ = many ? "kmgt"[rnd(4)] : "kmgtKMGT"[rnd(8)];
  } else {
    switch (rnd(6)) {
    case 0: p = cat(p, PICK("0.999", "1.0", "1000000", "1000000.001", "999999.999", "50.001", "50", "49.999", "0", "0.0", "inf", "nan", "infinity", "1e6", "1e3", "5e1", "0.001e3", "99.9e2", "1.5e", ".", ".5", "1.", "e5", "2.e1")); break;
    case 1: p = digits(p, 1 + rnd(7), 10); break;
    default: p = digits(p, 1 + rnd(2), 10); if (rnd(4)) { *p++ = '.'; p = digits(p, rnd(4), 10); }
    }
  }
  *p = 0;
  if (rnd(12) == 0) p = cat(p, many ? PICK("x", ".", "kk", "-", "z", "b", "kb", "1k1") : PICK("x", ".", "kk", " ", "-", "z", "b", "KB", "KiB"));
}
// Doubles of up to three decimals and no hexadecimal, as the specification reads them.
static int odd_double(int i, const char *v) {
  if (i != 3 && i != 4) return 0;
  if (v[strspn(v, "+-")] == '0' && (v[strspn(v, "+-") + 1] | 32) == 'x') return 1;
  return strlen(v) > 14;
}
int main(int argc, char **argv) {
  unit_args(argc, argv);
  // The processors that there are: those that the process may use.
  cpu_set_t set, some; CPU_ZERO(&set); CPU_ZERO(&some); sched_getaffinity(0, sizeof set, &set);
  for (int c = 0, n = 1 + rnd(12); c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &set) && n-- > 0) CPU_SET(c, &some);
  sched_setaffinity(0, sizeof some, &some); sched_getaffinity(0, sizeof set, &set);
  struct gc_options *o = gc_allocate_options();
  OUT("{\"o\":\"reset\",\"np\":%d", CPU_COUNT(&set)); values(o);
  for (long n = 0; n < U_n; n++) {
    char b[2000], v[300]; int i = rnd(6), r;
    switch (rnd(5)) {
    case 0:
      gen_name(b, i);
      OUT("{\"o\":\"name\""); str(",\"s\":", b); OUT(",\"r\":%d}\n", gc_option_from_string(b));
      break;
    case 1: {
      if (rnd(20) == 0) i = rnd(2) ? 6 + rnd(3) : -1;
      do gen_value(v, i < 0 || i > 5 ? 1 : rnd(8) ? i : (int)rnd(6), 0); while (odd_double(i, v));
      r = gc_options_parse_and_set(o, i, v);
      OUT("{\"o\":\"parse\",\"i\":%d", i); str(",\"s\":", v); OUT(",\"r\":%d", r); values(o);
      break;
    }
    case 2: {
      int k = rnd(3), neg = 0; unsigned __int128 x = 0;
      if (rnd(3)) k = i == 0 || i == 5 ? 0 : i < 3 ? 1 : 2;
      if (rnd(20) == 0) i = 6 + rnd(3);
      if (k == 0) {
        int a = (int[]){ rnd(4), rnd(70), -1, 2147483647, 62 + rnd(5), -2147483647 - 1, 1 }[rnd(7)];
        neg = a < 0; x = neg ? 0 : a; r = gc_options_set_int(o, i, a);
      } else if (k == 1) {
        size_t a = rnd(3) ? rnd64() >> (2 + rnd(60)) : rnd(2);
        x = a; r = gc_options_set_size(o, i, a);
      } else {
        double a = (double[]){ rnd(60), rnd(60000) / 1000.0, 999 / 1000.0, 1, 1e6, 1000000.001, 50, 50.001, -0.001, -3, 0, rnd(2000000), 1e9, NAN, INFINITY, -INFINITY }[rnd(16)];
        neg = !(a >= 0 && a < 1e12);   // not a value of any option
        x = neg ? 0 : dbl(a); r = gc_options_set_double(o, i, a);
      }
      OUT("{\"o\":\"set\",\"i\":%d,\"k\":\"%s\",\"neg\":%d", i, k == 0 ? "int" : k == 1 ? "size" : "double", neg); num(",\"x\":", x);
      OUT(",\"r\":%d", r); values(o);
      break;
    }
    default: {
      char *p = b; *p = 0;
      int m = rnd(12) ? 1 + rnd(4) : 0;
      for (int j = 0; j < m; j++) {
        i = rnd(6);
        do {
          do gen_value(v, rnd(10) ? i : (int)rnd(6), 1); while (strpbrk(v, "KMGT ") || odd_double(i, v));
        } while (rnd(3) && 0);
        char nm[100]; gen_name(nm, i);
        p = cat(p, nm); if (rnd(60)) *p++ = '='; p = cat(p, v);
        if (j < m - 1 && rnd(60)) *p++ = ',';
        *p = 0;
      }
      if (rnd(40) == 0) p = cat(p, PICK(",", "=", "a=1", ",x=1", ",=1"));
      char c[2000]; strcpy(c, b);
      r = gc_options_parse_and_set_many(o, b);
      if (strcmp(b, c)) { OUT("{\"o\":\"bad\",\"what\":\"argument modified\"}\n"); return 3; }
      OUT("{\"o\":\"many\""); str(",\"s\":", b); OUT(",\"r\":%d", r); values(o);
    }
    }
  }
  OUT("{\"o\":\"end\"}\n");
  fclose(U_out);
  return 0;
}
