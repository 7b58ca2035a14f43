// Drives the address map, address sets, splay tree and extents with random and
// adversarial histories; every result is recorded and judged by Containers.tla.
#include "unit.h"
#define GC_IMPL 1
#include "gc-assert.h"
#include "address-map.h"
#include "address-set.h"
#include "extents.h"

struct span { uintptr_t lo, size; };
#define SPLAY_TREE_PREFIX sp_
typedef struct span sp_key_span;
typedef uintptr_t sp_key;
typedef uintptr_t sp_value;
static inline int sp_compare(uintptr_t k, struct span s) {
  if (k < s.lo) return -1;
  if (k - s.lo < s.size) return 0;
  return 1;
}
static inline uintptr_t sp_span_start(struct span s) { return s.lo; }
#include "splay-tree.h"

#define NK 4000
static uintptr_t keys[NK]; static int nkeys;
static int key_id(uintptr_t a) { for (int i = 0; i < nkeys; i++) if (keys[i] == a) return i; return -1; }
static void each_kv(uintptr_t k, uintptr_t v, void *d) {
  int *first = d; OUT("%s[%d,%lu]", *first ? "" : ",", key_id(k), (unsigned long)v); *first = 0;
}
static void each_k(uintptr_t k, void *d) { int *first = d; OUT("%s%d", *first ? "" : ",", key_id(k)); *first = 0; }
static int find_left; static int found_id;
static int find_k(uintptr_t k, void *d) { found_id = key_id(k); return --find_left == 0; }

int main(int argc, char **argv) {
  unit_args(argc, argv);
  OUT("{\"o\":\"reset\"}\n");
  // Keys: mode 0 plain addresses; 1 all hash to few slots; 2 hashes at the end of the table
  // (wrap-around), 3 hash values that only differ in their high bits.
  nkeys = U_x ? U_x : 40;
  for (int i = 0; i < nkeys; i++) {
    uintptr_t a, h;
    switch (U_mode & 3) {
    case 0: a = 0x7f0000000000ull + i * 16; break;
    case 1: h = ((uintptr_t)i << 20) | rnd(3); a = unhash_address(h); break;
    case 2: h = ((uintptr_t)(i + 1) << 24) - 1 - rnd(4); a = unhash_address(h); break;
    default: h = ((uintptr_t)i << 40) | 5; a = unhash_address(h); break;
    }
    if (key_id(a) >= 0) { i--; continue; }
    keys[i] = a;
    OUT("{\"o\":\"hash\",\"i\":%d,\"ok\":%d}\n", i, unhash_address(hash_address(a)) == a && hash_address(unhash_address(a)) == a);
  }
  struct address_map m; address_map_init(&m);
  struct address_set s[2]; address_set_init(&s[0]); address_set_init(&s[1]);
  char *in_m = calloc(nkeys, 1), *in_s[2] = { calloc(nkeys, 1), calloc(nkeys, 1) };
  struct sp_tree t; sp_tree_init(&t);
  // Spans over [0,4096): cell i belongs to span owner[i] (start+1), 0 none.
  int owner[256] = {0}, tn = 0;
  struct extents *ex = extents_allocate(rnd(3) ? 10 : 1);
  char cov[256] = {0};
  int phase = 0;     // 0: grow, 1: shrink, 2: mixed
  for (long i = 0; i < U_n; i++) {
    if (rnd(40) == 0) phase = rnd(3);
    int k = rnd(nkeys), w = rnd(100), j = rnd(2);
    int addp = phase == 0 ? 80 : phase == 1 ? 20 : 50;
    if (w < 30) {
      int op = rnd(100);
      if (op < 50) {
        if (rnd(100) < addp) { unsigned v = rnd(1000); address_map_add(&m, keys[k], v); in_m[k] = 1;
          OUT("{\"o\":\"madd\",\"k\":%d,\"v\":%u}\n", k, v);
        } else if (in_m[k]) { address_map_remove(&m, keys[k]); in_m[k] = 0; OUT("{\"o\":\"mrem\",\"k\":%d}\n", k); }
      } else if (op < 70) OUT("{\"o\":\"mhas\",\"k\":%d,\"r\":%d}\n", k, !!address_map_contains(&m, keys[k]));
      else if (op < 94) OUT("{\"o\":\"mget\",\"k\":%d,\"r\":%lu}\n", k, (unsigned long)address_map_lookup(&m, keys[k], 5000));
      else if (op < 99) { OUT("{\"o\":\"meach\",\"kv\":["); int f = 1; address_map_for_each(&m, each_kv, &f); OUT("]}\n"); }
      else if (rnd(3) == 0) { address_map_clear(&m); memset(in_m, 0, nkeys); OUT("{\"o\":\"mclear\"}\n"); }
    } else if (w < 60) {
      int op = rnd(100);
      if (op < 50) {
        if (rnd(100) < addp) { address_set_add(&s[j], keys[k]); in_s[j][k] = 1; OUT("{\"o\":\"sadd\",\"i\":%d,\"k\":%d}\n", j + 1, k); }
        else if (in_s[j][k]) { address_set_remove(&s[j], keys[k]); in_s[j][k] = 0; OUT("{\"o\":\"srem\",\"i\":%d,\"k\":%d}\n", j + 1, k); }
      } else if (op < 86) OUT("{\"o\":\"shas\",\"i\":%d,\"k\":%d,\"r\":%d}\n", j + 1, k, !!address_set_contains(&s[j], keys[k]));
      else if (op < 92) { OUT("{\"o\":\"seach\",\"i\":%d,\"ks\":[", j + 1); int f = 1; address_set_for_each(&s[j], each_k, &f); OUT("]}\n"); }
      else if (op < 96) { find_left = 1 + rnd(6); int n = find_left; found_id = -1; address_set_find(&s[j], find_k, NULL);
        OUT("{\"o\":\"sfind\",\"i\":%d,\"n\":%d,\"left\":%d,\"last\":%d}\n", j + 1, n, find_left, found_id); }
      else if (op < 98) {
        address_set_union(&s[j], &s[!j]); for (int x = 0; x < nkeys; x++) in_s[j][x] |= in_s[!j][x];
        OUT("{\"o\":\"sunion\",\"i\":%d,\"j\":%d}\n", j + 1, !j + 1);
      }
      else if (rnd(3) == 0) { address_set_clear(&s[j]); memset(in_s[j], 0, nkeys); OUT("{\"o\":\"sclear\",\"i\":%d}\n", j + 1); }
    } else if (w < 88) {
      int c = rnd(256), op = rnd(100);
      if (op < 45 && rnd(100) < addp) {
        int len = 1 + rnd(8); if (c + len > 256) len = 256 - c;
        int free = 1; for (int x = c; x < c + len; x++) if (owner[x]) free = 0;
        if (free && tn < 60) {
          unsigned v = rnd(1000); sp_tree_insert(&t, (struct span){c, len}, v); tn++;
          for (int x = c; x < c + len; x++) owner[x] = c + 1;
          OUT("{\"o\":\"tins\",\"lo\":%d,\"n\":%d,\"v\":%u}\n", c, len, v);
        }
      } else if (op < 45) {
        // Any key of the span identifies it.
        for (int x = 0; x < 256 && !owner[c]; x++) c = (c + 1) & 255;
        if (owner[c]) {
          int lo = owner[c] - 1; uintptr_t v = sp_tree_remove(&t, c); tn--;
          for (int x = 0; x < 256; x++) if (owner[x] == lo + 1) owner[x] = 0;
          OUT("{\"o\":\"trem\",\"k\":%d,\"v\":%lu}\n", c, (unsigned long)v);
        }
      } else if (op < 80) {
        struct sp_node *n = sp_tree_lookup(&t, c);
        if (n) OUT("{\"o\":\"tget\",\"k\":%d,\"r\":[%lu,%lu,%lu]}\n", c, n->key.lo, n->key.size, n->value);
        else OUT("{\"o\":\"tget\",\"k\":%d,\"r\":[]}\n", c);
      } else if (op < 90) {
        OUT("{\"o\":\"thas\",\"k\":%d,\"r\":%d}\n", c, !!sp_tree_contains(&t, c));
      } else {
        struct sp_node *n = sp_tree_lookup(&t, c);
        if (n) { struct sp_node *p = sp_tree_previous(n);
          if (p) OUT("{\"o\":\"tprev\",\"k\":%d,\"r\":[%lu,%lu,%lu]}\n", c, p->key.lo, p->key.size, p->value);
          else OUT("{\"o\":\"tprev\",\"k\":%d,\"r\":[]}\n", c); }
      }
    } else {
      int c = rnd(256);
      if (rnd(100) < 20) {
        int len = 1 + rnd(6); if (c + len > 256) len = 256 - c;
        if (rnd(3) == 0) for (int x = 0; x < 256 && !(c && cov[c - 1] && !cov[c]); x++) c = (c + 1) & 255;
        if (c + len > 256) len = 256 - c;
        int free = 1; for (int x = c; x < c + len; x++) if (cov[x]) free = 0;
        if (free) { memset(cov + c, 1, len); ex = extents_adjoin(ex, (void*)(uintptr_t)(4096 * (c + 1)), 4096 * len);
          OUT("{\"o\":\"eadj\",\"lo\":%d,\"n\":%d}\n", c, len); }
      } else {
        // The ends of the extent matter most.
        uintptr_t a = 4096 * (uintptr_t)(c + 1) + (rnd(3) == 0 ? 4095 : rnd(2) ? 0 : rnd(4096));
        OUT("{\"o\":\"ehas\",\"c\":%d,\"r\":%d}\n", c, !!extents_contain_addr(ex, a));
      }
    }
  }
  OUT("{\"o\":\"end\"}\n");
  fclose(U_out);
  return 0;
}
