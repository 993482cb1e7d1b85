// @sources omniscidb/Utils/ChunkIter.cpp
// @flags -DEXECUTE_INCLUDE -include $VERIF/stubs/Logger/Logger.h -I$VERIF/stubs/boostpred
// @bounds columns of 4 values, row positions up to 2^40 (row 0 of the buffer placed anywhere); string and array columns of up to 3 rows with up to 3 elements of every value, NULL arrays anywhere; row numbers and element indices of every value
// @assume comparisons of array elements use a needle at least as wide as the element; ANY/ALL over arrays that are not NULL; a varlen NULL array lies at a nonzero offset (the encoding's own convention)
#include "rtf.h"
#include "Shared/checked_alloc.h"
#include "QueryEngine/ArrayOps.cpp"
#include "IR/Type.h"
#include <vector>
using hdk::ir::Type;
extern "C" uint64_t string_decompress(const int32_t string_id, const int64_t) { return 0; }
// ---- fixed width decoders
template <class T> struct Col {
  T v[4];
  const int8_t* base;
  int64_t pos;
  T want;
  Col() {
    for (int i = 0; i < 4; ++i) v[i] = symT<T>("value");
    int k = sym_choose("row", 0, 3);
    want = v[k];
    static const int64_t starts[] = {0, 1, 70000, (1ll << 31) - 2, (1ll << 32) - 1, 1ll << 40};
    int64_t start = starts[sym_choose("start", 0, 5)];
    base = (const int8_t*)((uintptr_t)v - (uintptr_t)start * sizeof(T));
    pos = start + k;
  }
};
template <class T> void ints() {
  Col<T> c;
  int64_t b = sym_i64("baseline");
  int64_t e = (int64_t)c.want, u = (int64_t)(uint64_t)(std::make_unsigned_t<T>)c.want;
  ASSERTM(fixed_width_int_decode(c.base, sizeof(T), c.pos) == e, "signed value at the row");
  ASSERTM(fixed_width_int_decode_noinline(c.base, sizeof(T), c.pos) == e, "signed value at the row");
  ASSERTM(fixed_width_unsigned_decode(c.base, sizeof(T), c.pos) == u, "unsigned value at the row");
  ASSERTM(fixed_width_unsigned_decode_noinline(c.base, sizeof(T), c.pos) == u, "unsigned value at the row");
  ASSERTM((uint64_t)diff_fixed_width_int_decode(c.base, sizeof(T), b, c.pos) == (uint64_t)e + (uint64_t)b, "difference encoded value at the row");
  if constexpr (sizeof(T) == 2 || sizeof(T) == 4) {
    int64_t n = sym_i64("null");
    int64_t d = c.want == sqlNull<T>() ? n : (int64_t)c.want * 86400;
    ASSERTM(fixed_width_small_date_decode(c.base, sizeof(T), (int32_t)sqlNull<T>(), n, c.pos) == d, "date at the row");
    ASSERTM(fixed_width_small_date_decode_noinline(c.base, sizeof(T), (int32_t)sqlNull<T>(), n, c.pos) == d, "date at the row");
  }
  sym_cover("integers decoded");
}
HARNESS(h_dec8) { ints<int8_t>(); }
HARNESS(h_dec16) { ints<int16_t>(); }
HARNESS(h_dec32) { ints<int32_t>(); }
HARNESS(h_dec64) { ints<int64_t>(); }
HARNESS(h_decf) {
  { Col<float> c; ASSERTM(same(fixed_width_float_decode(c.base, c.pos), c.want) && same(fixed_width_float_decode_noinline(c.base, c.pos), c.want), "float at the row"); }
}
HARNESS(h_decd) {
  { Col<double> c; ASSERTM(same(fixed_width_double_decode(c.base, c.pos), c.want) && same(fixed_width_double_decode_noinline(c.base, c.pos), c.want), "double at the row"); }
}
// ---- iterator over fixed width columns
static void row(ChunkIter& it, int64_t n) { it.num_elems = n; it.skip = 1; it.type_nullable = true; it.elem_type_id = 0; it.elem_type_size = 0; it.second_buf = nullptr; }
template <class T> void iter(Type::Id id) {
  T v[3];
  for (auto& x : v) x = symT<T>("value");
  ChunkIter it;
  row(it, 3);
  it.type_id = id;
  it.type_size = sizeof(T);
  it.start_pos = it.current_pos = (int8_t*)v;
  it.end_pos = (int8_t*)(v + 3);
  it.skip_size = sizeof(T);
  bool temporal = id == Type::kDate || id == Type::kTime || id == Type::kTimestamp;
  bool unc = sym_choose("uncompress", 0, 1);
  int n = sym_i32("n");
  VarlenDatum d;
  bool end = false;
  ChunkIter_get_nth(&it, n, unc, &d, &end);
  ASSERTM(end == (n < 0 || n > 2), "end exactly outside the column");
  if (end) {
    ASSERTM(d.is_null && d.length == 0, "nothing outside the column");
    sym_cover("outside the column");
    return;
  }
  T w = n == 0 ? v[0] : n == 1 ? v[1] : v[2];
  if (unc && temporal && sizeof(T) < 8) {
    int64_t x;
    ASSERTM(d.length == 8, "a decompressed value has 8 bytes");
    memcpy(&x, d.pointer, 8);
    ASSERTM(x == (int64_t)w, "decompressed value of the row");
  } else {
    T x;
    ASSERTM(d.length == sizeof(T), "length of the value");
    memcpy(&x, d.pointer, sizeof(T));
    ASSERTM(same(x, w), "value of the row");
    ASSERTM(d.is_null == (w == sqlNull<T>()), "NULL exactly for the NULL value");
  }
  for (int i = 0; i < 4; ++i) {
    ChunkIter_get_next(&it, false, &d, &end);
    ASSERTM(end == (i == 3), "the iteration ends after the last row");
    if (!end) { T x; memcpy(&x, d.pointer, sizeof(T)); ASSERTM(same(x, v[i]) && d.is_null == (v[i] == sqlNull<T>()), "rows in order"); }
  }
  sym_cover("fixed width column read");
}
HARNESS(h_it8) { iter<int8_t>(Type::kInteger); }
HARNESS(h_it16) { iter<int16_t>(Type::kInteger); }
HARNESS(h_it32) { iter<int32_t>(Type::kInteger); }
HARNESS(h_it64) { iter<int64_t>(Type::kDecimal); }
HARNESS(h_itf) { iter<float>(Type::kFloatingPoint); }
HARNESS(h_itd) { iter<double>(Type::kFloatingPoint); }
HARNESS(h_it_date) { iter<int16_t>(Type::kDate); }
HARNESS(h_it_time) { iter<int32_t>(Type::kTime); }
HARNESS(h_it_ts) { iter<int64_t>(Type::kTimestamp); }
// ---- strings
HARNESS(h_strings) {
  int8_t pool[9];
  StringOffsetT off[4] = {0};
  int rows = sym_choose("rows", 0, 3);
  for (int i = 0; i < rows; ++i) off[i + 1] = off[i] + sym_choose("len", 0, 2);
  ChunkIter it;
  row(it, rows);
  it.type_id = Type::kText;
  it.type_size = -1;
  it.start_pos = it.current_pos = (int8_t*)off;
  it.end_pos = (int8_t*)(off + rows);
  it.second_buf = pool;
  it.skip_size = -1;
  int n = sym_i32("n");
  VarlenDatum d;
  bool end = false;
  ChunkIter_get_nth(&it, n, false, &d, &end);
  ASSERTM(end == (n < 0 || n >= rows), "end exactly outside the column");
  if (!end) {
    n = (int)sym_concretize(n);
    ASSERTM(d.pointer == pool + off[n] && d.length == (size_t)(off[n + 1] - off[n]), "the string of the row");
    ASSERTM(d.is_null == (off[n + 1] == off[n]), "the empty string is NULL");
  }
  for (int i = 0; i <= rows; ++i) {
    ChunkIter_get_next(&it, false, &d, &end);
    ASSERTM(end == (i == rows), "the iteration ends after the last row");
    if (!end) ASSERTM(d.pointer == pool + off[i] && d.length == (size_t)(off[i + 1] - off[i]), "strings in order");
  }
  sym_cover("strings read");
}
// ---- arrays
template <class T> struct ArrOps;
#define OPS(T) template <> struct ArrOps<T> { \
  static T at(int8_t* c, uint64_t r, uint32_t i) { return array_at_##T(c, r, i); } \
  static T vat(int8_t* c, uint64_t r, uint32_t i) { return varlen_array_at_##T(c, r, i); } \
  static T nat(int8_t* c, uint64_t r, uint32_t i) { return varlen_notnull_array_at_##T(c, r, i); } \
  static T chk(int8_t* c, uint64_t r, int64_t i, T n) { return array_at_##T##_checked(c, r, i, n); } };
OPS(int8_t) OPS(int16_t) OPS(int32_t) OPS(int64_t) OPS(float) OPS(double)
template <class T> T nullArr() {
  if constexpr (std::is_same_v<T, float>) return 2.350988702e-38f;
  else if constexpr (std::is_same_v<T, double>) return 4.450147717014403e-308;
  else return (T)(sqlNull<T>() + 1);
}
template <class T> struct Arr {
  ChunkIter it;
  T pool[12];
  ArrayOffsetT off[4];
  int rows, len[3], at[3];
  bool nul[3], fixed;
  Arr(bool f, bool nulls) : fixed(f) {
    rows = sym_choose("rows", 1, 3);
    for (auto& x : pool) x = 0;
    row(it, rows);
    int p = 0;
    off[0] = 0;
    for (int i = 0; i < rows; ++i) {
      nul[i] = nulls && sym_choose("null", 0, 1);
      len[i] = f ? 2 : nul[i] ? 0 : sym_choose("len", 0, 2);
      at[i] = p;
      // the encoding has no NULL array at offset 0: padding comes first (ArrayNoneEncoder's DEFAULT_NULL_PADDING_SIZE)
      if (!f && p == 0 && nul[i]) p = sizeof(T) == 8 ? 1 : 2;
      for (int k = 0; k < len[i]; ++k) {
        pool[p + k] = symT<T>("elem");
        if (f && k == 0) { if (nul[i]) pool[p] = nullArr<T>(); else sym_assume(pool[p] != nullArr<T>()); }
      }
      p += len[i];
      off[i + 1] = nul[i] ? -(ArrayOffsetT)(p * sizeof(T)) : (ArrayOffsetT)(p * sizeof(T));
    }
    it.type_id = f ? Type::kFixedLenArray : Type::kVarLenArray;
    it.type_size = f ? 2 * sizeof(T) : -1;
    it.elem_type_id = std::is_floating_point_v<T> ? Type::kFloatingPoint : Type::kInteger;
    it.elem_type_size = sizeof(T);
    it.start_pos = it.current_pos = f ? (int8_t*)pool : (int8_t*)off;
    it.end_pos = f ? (int8_t*)(pool + 2 * rows) : (int8_t*)(off + rows);
    it.second_buf = (int8_t*)pool;
    it.skip_size = f ? 2 * sizeof(T) : -1;
  }
};
template <class T> void arrays(bool f) {
  Arr<T> a(f, true);
  int8_t* c = (int8_t*)&a.it;
  int r = sym_choose("row", 0, a.rows - 1);
  uint32_t lg = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3;
  int32_t nv = sym_i32("null size");
  int n = a.nul[r] ? 0 : a.len[r];
  ASSERTM(array_is_null(c, r) == a.nul[r], "NULL array recognised");
  ASSERTM(array_size(c, r, lg) == n, "CARDINALITY");
  ASSERTM(array_size_nullable(c, r, lg, nv) == (a.nul[r] ? nv : n), "CARDINALITY of a nullable array");
  int64_t i = sym_i64("index");
  T null = symT<T>("null");
  T x = ArrOps<T>::chk(c, r, i, null);
  T w = n > 0 && i == 1 ? a.pool[a.at[r]] : n > 1 && i == 2 ? a.pool[a.at[r] + 1] : null;
  ASSERTM(same(x, w), "element by index, NULL outside the array");
  ArrayDatum d;
  bool end = false;
  ChunkIter_get_nth(&a.it, r, &d, &end);
  ASSERTM(!end && d.is_null == a.nul[r], "array of the row");
  if (!a.nul[r]) ASSERTM(d.length == n * sizeof(T) && d.pointer == (int8_t*)(a.pool + a.at[r]) && array_buff(c, r) == d.pointer, "array of the row");
  int out = sym_i32("row outside");
  sym_assume(out < 0 || out >= a.rows);
  ChunkIter_get_nth(&a.it, out, &d, &end);
  ASSERTM(end && d.is_null && d.length == 0, "nothing outside the column");
  if (!f) {
    ChunkIter_get_nth_varlen(&a.it, r, &d, &end);
    ASSERTM(!end && d.is_null == a.nul[r] && d.length == n * sizeof(T), "varlen array of the row");
    ChunkIter_get_nth_varlen(&a.it, out, &d, &end);
    ASSERTM(end && d.is_null && d.length == 0, "nothing outside the column");
  } else {
    ASSERTM(fast_fixlen_array_size(c, lg) == 2 && fast_fixlen_array_buff(c, r) == (int8_t*)(a.pool + a.at[r]), "fixed length arrays");
  }
  for (int k = 0; k < n; ++k) {
    T e = a.pool[a.at[r] + k];
    ASSERTM(same(ArrOps<T>::at(c, r, k), e), "element");
    if (!f) ASSERTM(same(ArrOps<T>::vat(c, r, k), e), "element");
    bool any = false;
    for (int q = 0; q < a.rows; ++q) any |= a.nul[q];
    if (!f && !any) ASSERTM(same(ArrOps<T>::nat(c, r, k), e), "element");
  }
  sym_cover("arrays read");
}
#define ARR(T) HARNESS(h_varr_##T) { arrays<T>(false); } HARNESS(h_farr_##T) { arrays<T>(true); }
ARR(int8_t) ARR(int16_t) ARR(int32_t) ARR(int64_t) ARR(float) ARR(double)
// ---- ANY / ALL
template <class T, class N, class F, class P> void quant(bool all, F f, P p) {
  bool fx = sym_choose("fixed", 0, 1);
  Arr<T> a(fx, false);
  sym_assume(a.rows < 3);
  int r = a.rows - 1;
  N needle = symT<N>("needle");
  T null = sqlNull<T>();
  bool e = all;
  for (int k = 0; k < a.len[r]; ++k) {
    T x = a.pool[a.at[r] + k];
    bool ok = x != null && p((N)x, needle);
    if (all) e &= ok; else e |= ok;
  }
  ASSERTM(f((int8_t*)&a.it, r, needle, null) == e, "ANY/ALL over the elements that are not NULL");
  sym_cover("quantified comparison");
}
#define Q1(op, sym, T, N) \
  HARNESS(h_any_##op##_##T##_##N) { quant<T, N>(false, array_any_##op##_##T##_##N, [](N x, N y) { return x sym y; }); } \
  HARNESS(h_all_##op##_##T##_##N) { quant<T, N>(true, array_all_##op##_##T##_##N, [](N x, N y) { return x sym y; }); }
#define Q(T, N) Q1(eq, ==, T, N) Q1(ne, !=, T, N) Q1(lt, <, T, N) Q1(le, <=, T, N) Q1(gt, >, T, N) Q1(ge, >=, T, N)
Q(int8_t, int8_t) Q(int16_t, int16_t) Q(int32_t, int32_t) Q(int64_t, int64_t) Q(int32_t, int64_t) Q(double, double) Q(float, float)
