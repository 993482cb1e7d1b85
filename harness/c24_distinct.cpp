// @flags -I$VERIF/stubs/boostpred
// @bounds value ranges of up to 70 values anywhere in the 64-bit range (one row of ranges up to 2^33), up to 3 rows (thorough: 4), NULLs; bitmaps of 1 to 10 bytes of every content for set size (values in the first, second or last byte of the range) and union, up to 3 sub-bitmaps; approximate sketches of 16 registers with values in two of them (union: every register content), every hash function; ranks for every hash and precision 4 to 16
// @assume COUNT(DISTINCT) values lie in the column range the bitmap was laid out for
#include "rtf.h"
#include "ResultSet/CountDistinct.h"
#ifdef THOROUGH
enum { R = 4 };
#else
enum { R = 3 };
#endif
static uint64_t g_k[8], g_h[8];
static int g_n;
// an arbitrary deterministic hash function
extern "C" uint64_t MurmurHash64A(const void* key, int len, uint64_t) {
  sym_assert(len == 8, "the whole key is hashed");
  uint64_t k, r = sym_u64("hash") >> 4 | (sym_choose("register", 0, 1) ? 15ull << 60 : 2ull << 60);
  memcpy(&k, key, 8);
  for (int i = 0; i < g_n; ++i) r = k == g_k[i] ? g_h[i] : r;
  g_k[g_n] = k;
  g_h[g_n++] = r;
  return r;
}
extern "C" uint32_t MurmurHash3(const void*, int, const uint32_t) { return 0; }
extern "C" uint32_t MurmurHash1(const void*, int, const uint32_t) { return 0; }
static CountDistinctDescriptor desc(int64_t mn, int64_t bits, bool approx, size_t sub) {
  return CountDistinctDescriptor{CountDistinctImplType::Bitmap, mn, bits, approx, ExecutorDeviceType::CPU, sub};
}
// COUNT(DISTINCT x) over a value range, in one or two partial results that are merged; then IN by the same bitmap
HARNESS(h_bitmap) {
  static const int widths[] = {1, 8, 9, 70};
  int64_t bits = widths[sym_choose("range", 0, 3)];
  int64_t mn = sym_i64("min");
  sym_assume(mn <= INT64_MAX - bits);
  auto d = desc(mn, bits, false, 1);
  size_t bytes = d.bitmapSizeBytes();
  ASSERTM(bytes * 8 >= (size_t)bits && bytes * 8 < (size_t)bits + 8, "the bitmap has a bit per value");
  ASSERTM(d.bitmapPaddedSizeBytes() >= bytes, "the allocation holds the bitmap");
  int8_t* bm[2];
  for (auto& b : bm) { b = new int8_t[bytes]; memset(b, 0, bytes); }
  int64_t h[2] = {(int64_t)bm[0], (int64_t)bm[1]};
  int64_t v[R], null = sym_i64("null");
  int n = sym_choose("rows", 0, R - (bits > 9));
  bool skip[R];
  for (int i = 0; i < n; ++i) {
    // the byte of the bitmap is enumerated, the bit in it symbolic
    int last = (int)(bits - 1) / 8;
    int which = last > 1 ? sym_choose("byte", 0, 2) : sym_choose("byte", 0, last);
    int64_t off = 8 * (which == 2 ? last : which) + (sym_u8("bit") & 7);
    sym_assume(off < bits);
    bool isnull = sym_choose("null row", 0, 1);
    v[i] = isnull ? null : mn + off;
    skip[i] = isnull;
    if (!isnull) sym_assume(v[i] != null);
    int part = i == 0 ? 0 : sym_choose("part", 0, 1);
    if (isnull || i == 1) agg_count_distinct_bitmap_skip_val(&h[part], v[i], mn, null);
    else agg_count_distinct_bitmap(&h[part], v[i], mn);
  }
  count_distinct_set_union(h[0], h[1], d, d);
  int64_t e = 0;
  for (int i = 0; i < n; ++i) {
    bool first = !skip[i];
    for (int j = 0; j < i; ++j) first &= skip[j] | (v[j] != v[i]);
    e += first;
  }
  ASSERTM(count_distinct_set_size(h[0], d) == e, "COUNT(DISTINCT) counts the distinct values that are not NULL");
  ASSERTM(count_distinct_set_size(0, d) == 0, "no set, no values");
  int64_t q = sym_i64("needle"), qn = sym_i64("needle null");
  bool in = false;
  for (int i = 0; i < n; ++i) in |= !skip[i] & (v[i] == q);
  int8_t nb = -128;
  ASSERTM(bit_is_set(h[0], q, mn, mn + bits - 1, qn, nb) == (q == qn ? nb : in ? 1 : 0), "IN finds exactly the values of the set");
  ASSERTM(bit_is_set(0, q, 0, 0, qn, nb) == (q == qn ? nb : 0), "IN over an empty set");
  for (auto b : bm) delete[] b;
  sym_cover("distinct values counted");
}
// ranges of up to 2^33 values: only the bytes of the bitmap around the value are there
HARNESS(h_wide_range) {
  int64_t mn = sym_i64("min"), far = sym_choose("far", 0, 2) * (INT64_C(3) << 30) + 8;
  sym_assume(mn <= INT64_MAX - (INT64_C(1) << 34));
  int8_t b[4] = {0, 0, 0, 0};
  int64_t h = (int64_t)b - far / 8;
  int64_t o = sym_u8("offset") & 31, q = sym_u8("needle offset") & 31, null = sym_i64("null");
  int64_t v = mn + far + o, w = mn + far + q;
  sym_assume(v != null && w != null);
  if (sym_choose("skip", 0, 1)) agg_count_distinct_bitmap_skip_val(&h, v, mn, null); else agg_count_distinct_bitmap(&h, v, mn);
  for (int i = 0; i < 4; ++i) ASSERTM((uint8_t)b[i] == (o / 8 == i ? 1 << (o & 7) : 0), "exactly the bit of the value is set");
  ASSERTM(bit_is_set(h, w, mn, mn + (INT64_C(1) << 33), null, -128) == (o == q), "IN finds exactly the values of the set");
  sym_cover("wide range");
}
static int pop(const int8_t* b, size_t n) {
  int c = 0;
  for (size_t i = 0; i < n; ++i) for (int k = 0; k < 8; ++k) c += ((uint8_t)b[i] >> k) & 1;
  return c;
}
HARNESS(h_set_size) {
  size_t n = sym_choose("bytes", 0, 10);
  int8_t b[16];
  for (size_t i = 0; i < n; ++i) b[i] = sym_i8("byte");
  ASSERTM(bitmap_set_size(b, n) == (size_t)pop(b, n), "every bit counts once");
  sym_cover("bits counted");
}
HARNESS(h_sub_bitmaps) {
  size_t sub = sym_choose("sub bitmaps", 1, 3);
  auto d = desc(0, sym_choose("bits", 1, 17), false, sub);
  size_t bytes = d.bitmapSizeBytes(), all = d.bitmapPaddedSizeBytes(), step = all / sub;
  ASSERTM(all % sub == 0 && step >= bytes, "sub-bitmaps have room");
  int8_t a[32], b[32], e[8];
  for (size_t i = 0; i < all; ++i) { a[i] = sym_i8("a"); b[i] = sym_i8("b"); }
  for (size_t i = 0; i < bytes; ++i) { e[i] = 0; for (size_t s = 0; s < sub; ++s) e[i] |= a[s * step + i] | b[s * step + i]; }
  count_distinct_set_union((int64_t)a, (int64_t)b, d, d);
  ASSERTM(count_distinct_set_size((int64_t)a, d) == pop(e, bytes), "union of the sub-bitmaps of both results");
  sym_cover("sub-bitmaps merged");
}
// ---- sketches
HARNESS(h_rank) {
  uint32_t b = sym_choose("b", 4, 16);
  uint64_t x = sym_u64("hash");
  uint64_t y = x << b;
  int e = 1;
  for (int i = 63; i >= (int)b && !((y >> i) & 1); --i) ++e;
  ASSERTM(get_rank(y, 64 - b) == e, "rank is the position of the first set bit after the index, at most 65 - b");
  sym_cover("rank");
}
HARNESS(h_hll) {
  uint8_t one[16] = {0}, a[16] = {0}, b[16] = {0};
  auto d = desc(0, 4, true, 1);
  ASSERTM(d.bitmapSizeBytes() == 16, "a register per index");
  int64_t h1 = (int64_t)one, ha = (int64_t)a, hb = (int64_t)b;
  for (int i = 0; i < R - 1; ++i) {
    int64_t k = sym_i64("key");
    agg_approximate_count_distinct(&h1, k, 4);
    agg_approximate_count_distinct(sym_choose("part", 0, 1) ? &ha : &hb, k, 4);
    if (i == 0) {
      uint64_t x = g_h[g_n - 1];
      uint32_t q = sym_range("register", 0, 15);
      ASSERTM(one[q] == ((x >> 60) == q ? get_rank(x << 4, 60) : 0), "one register holds the rank");
    }
  }
  count_distinct_set_union(ha, hb, d, d);
  uint32_t q = sym_range("register", 0, 15);
  ASSERTM(a[q] == one[q], "merged sketches are the sketch of all the values");
  uint8_t before = one[q];
  int64_t k = (int64_t)g_k[0];
  agg_approximate_count_distinct(&h1, k, 4);
  ASSERTM(one[q] == before, "a repeated value changes nothing");
  sym_cover("sketches merged");
}
template <class A, class B> static void unify() {
  A a[4], a0[4];
  B b[4], b0[4];
  for (int i = 0; i < 4; ++i) {
    a[i] = a0[i] = sym_range("a", 0, 64);
    b[i] = b0[i] = sym_range("b", 0, 64);
  }
  hll_unify(a, b, 4);
  for (int i = 0; i < 4; ++i) ASSERTM(a[i] == (A)(a0[i] > (A)b0[i] ? a0[i] : (A)b0[i]), "registers take the maximum");
  sym_cover("registers");
}
HARNESS(h_unify8) { unify<int8_t, int8_t>(); }
HARNESS(h_unify32) { unify<int32_t, int8_t>(); }
HARNESS(h_unify832) { unify<int8_t, int32_t>(); }
