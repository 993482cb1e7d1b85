// @bounds every key and every range minimum (64 bits, range without wrap-around); tables of up to 5 entries for contents, slot addresses for every 32-bit row index (perfect hash layouts: buffers of up to 2^35 bytes); bucket sizes 1, 7, 60, 3600, 86400, 86400*10^3, *10^6, *10^9 and none; rows of 1 to 4 quadwords and 1000; up to 3 rows inserted in any order
// @assume keys lie within the range the table was sized for, as the planner guarantees; key values differ from the empty-slot marker
#include "rtf.h"
static const int64_t kBuckets[] = {0, 1, 7, 60, 3600, 86400, 86400000, 86400000000, 86400000000000};
static int64_t bucketOf() { return kBuckets[sym_choose("bucket", 0, 8)]; }
enum { E = 5 };
// a key of the range [min, min + E * bucket), given by its slot and its position in the bucket
struct RK { int64_t key; int slot; };
static RK rk(int64_t mn, int64_t bucket) {
  RK r;
  r.slot = sym_choose("slot", 0, E - 1);
  int64_t b = bucket ? bucket : 1;
  r.key = mn + r.slot * b + sym_range64("within", 0, b - 1);
  sym_assume(r.key != EMPTY_KEY_64);
  return r;
}
static int64_t minKey() { return sym_range64("min", INT64_MIN, INT64_MAX - E * 86400000000000 - 1); }
static void fill(int64_t* p, int n, int64_t v) { for (int i = 0; i < n; ++i) p[i] = v; }
// single column, row-wise; variant 0 plain, 1 with the original key stored
template <int V> static void fast() {
  int row = sym_choose("row", 2, 3);
  int64_t bucket = bucketOf(), mn = minKey();
  int64_t mem[4 + E * 3 + 4];
  fill(mem, 4 + E * 3 + 4, 77);
  int64_t* buf = mem + 4;
  for (int i = 0; i < E; ++i) { fill(buf + i * row, row, 0); buf[i * row] = EMPTY_KEY_64; }
  int64_t want[E], cnt[E];
  bool set[E];
  for (int i = 0; i < E; ++i) set[i] = false, cnt[i] = 0;
  int m = sym_choose("rows", 1, 3);
  for (int j = 0; j < m; ++j) {
    RK k = rk(mn, bucket);
    int64_t o = V ? sym_i64("orig") : k.key;
    sym_assume(o != EMPTY_KEY_64);
    int64_t* r = V ? get_group_value_fast_with_original_key(buf, k.key, o, mn, bucket, row) : get_group_value_fast(buf, k.key, mn, bucket, row);
    sym_assert(r == buf + k.slot * row + 1, "the slot of the key's bucket");
    if (!set[k.slot]) set[k.slot] = true, want[k.slot] = o;
    ++*r;
    ++cnt[k.slot];
  }
  for (int i = 0; i < E; ++i) {
    sym_assert(buf[i * row] == (set[i] ? want[i] : EMPTY_KEY_64), "the group key is the first one seen");
    sym_assert(buf[i * row + 1] == cnt[i], "the value slot");
    if (row == 3) sym_assert(buf[i * row + 2] == 0, "other values untouched");
    if (set[i]) sym_observe(want[i]);
  }
  for (int i = 0; i < 4; ++i) sym_assert(mem[i] == 77 && buf[E * row + i] == 77, "nothing outside the table is written");
  sym_cover("fast");
}
HARNESS(h_fast) { fast<0>(); }
HARNESS(h_fast_orig) { fast<1>(); }
HARNESS(h_columnar_bin) {
  int64_t bucket = bucketOf(), mn = minKey();
  int64_t mem[2 + E + 2];
  fill(mem, E + 4, EMPTY_KEY_64);
  mem[1] = mem[E + 2] = 77;
  int64_t* buf = mem + 2;
  int64_t want[E];
  fill(want, E, EMPTY_KEY_64);
  int m = sym_choose("rows", 1, 3);
  for (int j = 0; j < m; ++j) {
    RK k = rk(mn, bucket);
    uint32_t r = get_columnar_group_bin_offset(buf, k.key, mn, bucket);
    sym_observe(r);
    sym_assert(r == (uint32_t)k.slot, "the bin of the key's bucket");
    if (want[k.slot] == EMPTY_KEY_64) want[k.slot] = k.key;
  }
  for (int i = 0; i < E; ++i) sym_assert(buf[i] == want[i], "the bin key is the first one seen");
  sym_assert(mem[1] == 77 && mem[E + 2] == 77, "nothing outside the bins is written");
}
// several columns, the index computed by the generated code
HARNESS(h_multi) {
  int kc = sym_choose("key_columns", 1, 3), row = kc + 1, m = sym_choose("rows", 1, 3);
  enum { S = 3 };
  int64_t buf[S * 4 + 2], col[S * 4 + 2], keys[3][3];
  fill(buf, S * 4 + 2, 77);
  fill(col, S * 4 + 2, 77);
  for (int i = 0; i < S; ++i)
    for (int c = 0; c < kc; ++c) buf[i * row + c] = EMPTY_KEY_64, col[c * S + i] = EMPTY_KEY_64;
  int owner[S] = {-1, -1, -1};
  for (int j = 0; j < m; ++j) {
    int s = sym_choose("index", 0, S - 1);
    for (int c = 0; c < kc; ++c) { keys[j][c] = sym_i64("key"); sym_assume(keys[j][c] != EMPTY_KEY_64); }
    int64_t* r = get_matching_group_value_perfect_hash(buf, s, keys[j], kc, row);
    sym_assert(r == buf + s * row + kc, "the values of the group follow its keys");
    set_matching_group_value_perfect_hash_columnar(col, s, keys[j], kc, S);
    if (owner[s] < 0) owner[s] = j;
  }
  for (int i = 0; i < S; ++i) {
    for (int c = 0; c < kc; ++c) {
      int64_t w = owner[i] < 0 ? EMPTY_KEY_64 : keys[owner[i]][c];
      sym_assert(buf[i * row + c] == w, "keys stored, first one wins");
      sym_assert(col[c * S + i] == w, "columnar keys stored, first one wins");
    }
    sym_assert(buf[i * row + kc] == 77 && col[kc * S] == 77, "values untouched");
  }
  sym_observe(buf[0]);
  sym_cover("multi");
}
// slot addresses for large tables: the base is placed so that the addressed row falls on a small buffer
static const uint32_t kRows[] = {1, 2, 3, 4, 1000};
HARNESS(h_address) {
  uint32_t row = kRows[sym_choose("row", 0, 4)], h = sym_u32("index");
  int call = sym_choose("call", 0, 8);
  // the perfect hash layouts are limited to 2^32 quadwords (32 GB); the others are not
  if (call == 1 || call == 2) sym_assume((uint64_t)h * row < (1ull << 32));
  int64_t small[4] = {EMPTY_KEY_64, EMPTY_KEY_64, 5, 6};
  int64_t* base = (int64_t*)((uintptr_t)small - (uint64_t)h * row * 8);
  int64_t k[1] = {sym_i64("key")};
  sym_assume(k[0] != EMPTY_KEY_64);
  int64_t mn = sym_range64("min", INT64_MIN, INT64_MAX - (1ll << 33));
  switch (call) {
    case 0: sym_assert(get_matching_group_value(base, h, k, 1, 8, row) == small + 1, "baseline row address"); sym_assert(small[0] == k[0], "key stored"); break;
    case 1: sym_assert(get_matching_group_value_perfect_hash(base, h, k, 1, row) == small + 1, "perfect hash row address"); sym_assert(small[0] == k[0], "key stored"); break;
    case 2: sym_assert(get_matching_group_value_perfect_hash_keyless(base, h, row) == small, "keyless row address"); break;
    case 3: sym_assert(get_group_value_fast(base, mn + h, mn, 0, row) == small + 1, "single column row address"); sym_assert(small[0] == mn + h || mn + h == EMPTY_KEY_64, "key stored"); break;
    case 4: sym_assert(get_group_value_fast_keyless(base, mn + h, mn, 0, row) == small, "single column keyless row address"); break;
    case 5: {
      uint32_t n = sym_u32("entries");
      int64_t* r = get_scan_output_slot(base, n, h, k[0], row);
      sym_assert(h < n ? r == small + 1 && small[0] == k[0] : r == nullptr && small[0] == EMPTY_KEY_64, "projection row: written exactly when there is room");
      sym_cover("scan slot");
      break;
    }
    case 6: {
      uint32_t n = sym_u32("entries");
      sym_assume(row == 1 && h < (1u << 31));
      int32_t r = get_columnar_scan_output_offset(base, n, h, k[0]);
      sym_assert(h < n ? r == (int32_t)h && small[0] == k[0] : r == -1 && small[0] == EMPTY_KEY_64, "columnar projection row: written exactly when there is room");
      sym_cover("columnar scan slot");
      break;
    }
    case 7: {
      uint8_t ws = sym_range("warp_size", 1, 32), wi = sym_range("warp", 0, 31);
      sym_assume(h < 1000 && wi < ws && row <= 4);
      int64_t* r = get_group_value_fast_keyless_semiprivate(small, mn + h, mn, 0, row, wi, ws);
      sym_assert(r == small + ((uint64_t)h * ws + wi) * row, "private copy of the row");
      break;
    }
    case 8: {
      sym_assume(row == 1);
      sym_assert(get_columnar_group_bin_offset(base, mn + h, mn, 0) == h, "bin offset");
      sym_assert(small[0] == mn + h, "bin key stored");
      break;
    }
  }
  sym_assert(small[1] == EMPTY_KEY_64 && small[2] == 5 && small[3] == 6, "neighbours untouched");
  sym_observe(small[0] == EMPTY_KEY_64);
}
