// @bounds every value sequence of up to 4 rows (thorough: 6) for each aggregate and each slot type, NULLs anywhere
// @assume integer running sums never equal the NULL sentinel (the engine's own representation limit); MIN/MAX inputs are not NaN; SINGLE_VALUE inputs are not negative zero; floating sums compared with the same left-to-right additions
#include "rtf.h"
#ifdef THOROUGH
enum { N = 6 };
#else
enum { N = 4 };
#endif
template <class T> struct Rows {
  T v[N];
  int n;
  bool null(int i) const { return v[i] == sqlNull<T>(); }
};
template <class T> static Rows<T> rows() {
  Rows<T> r;
  r.n = sym_choose("rows", 1, N);
  for (int i = 0; i < r.n; ++i) r.v[i] = symT<T>("value");
  return r;
}
template <class A, class T> static T fromSlot(A a) { T t; memcpy(&t, &a, sizeof t); return t; }
template <class A, class T> static A toSlot(T t) { A a = 0; memcpy(&a, &t, sizeof t); return a; }
// ----- COUNT
template <class T, class C, class F, class G> static void count(F all, G nonnull) {
  Rows<T> r = rows<T>();
  C a = 0, b = 0, e = 0;
  for (int i = 0; i < r.n; ++i) {
    sym_assert(all(&a, r.v[i]) == (C)i, "COUNT(*) returns the previous count");
    C p = nonnull(&b, r.v[i], sqlNull<T>());
    sym_assert(p == e, "COUNT(x) returns the previous count");
    e += !r.null(i);
  }
  sym_observe(b);
  sym_assert(a == (C)r.n, "COUNT(*) counts every row");
  sym_assert(b == e, "COUNT(x) counts the non-NULL rows");
  // one more row from an arbitrary count
  C c0 = symT<C>("count"), c1 = c0, c2 = c0;
  all(&c1, r.v[0]);
  nonnull(&c2, r.v[0], sqlNull<T>());
  sym_assert(c1 == (C)(c0 + 1) && c2 == (C)(c0 + !r.null(0)), "COUNT from any count");
}
HARNESS(h_count_int64) { count<int64_t, uint64_t>(agg_count, agg_count_skip_val); sym_cover("count"); }
HARNESS(h_count_int32) { count<int32_t, uint32_t>(agg_count_int32, agg_count_int32_skip_val); }
HARNESS(h_count_double) { count<double, uint64_t>(agg_count_double, agg_count_double_skip_val); }
HARNESS(h_count_float) { count<float, uint32_t>(agg_count_float, agg_count_float_skip_val); }
// ----- SUM of integers
template <class T, class F, class G> static void sum(F notnull, G skip) {
  using U = std::make_unsigned_t<T>;
  Rows<T> r = rows<T>();
  const T n = sqlNull<T>();
  T a = 0, b = n;
  U ea = 0, eb = 0;
  bool any = false;
  for (int i = 0; i < r.n; ++i) {
    T old = a;
    sym_assert(notnull(&a, r.v[i]) == old, "SUM returns the previous sum");
    ea += (U)r.v[i];
    old = b;
    sym_assert(skip(&b, r.v[i], n) == old, "nullable SUM returns the previous sum");
    bool z = r.null(i);
    eb += z ? U(0) : (U)r.v[i];
    any |= !z;
    sym_assume(!any || (T)eb != n);
  }
  sym_observe((uint64_t)b);
  sym_assert(a == (T)ea, "SUM adds every row");
  sym_assert(b == (any ? (T)eb : n), "SUM adds the non-NULL rows, NULL when there are none");
}
HARNESS(h_sum_int64) { sum<int64_t>(agg_sum, agg_sum_skip_val); sym_cover("sum"); }
HARNESS(h_sum_int32) { sum<int32_t>(agg_sum_int32, agg_sum_int32_skip_val); }
// ----- SUM of floating point: one step from any running sum
template <class T, class A, class F, class G> static void fsum(F add, G skip) {
  const T n = sqlNull<T>();
  T s = symT<T>("sum"), x = symT<T>("value");
  A a = toSlot<A>(s), b = a;
  add(&a, x);
  skip(&b, x, n);
  sym_observe((uint64_t)b);
  sym_assert(same<T>(fromSlot<A, T>(a), s + x), "SUM adds");
  T e = x == n ? s : s == n ? x : s + x;
  sym_assert(same<T>(fromSlot<A, T>(b), e), "SUM skips NULL and starts from NULL");
}
HARNESS(h_sum_double) { fsum<double, int64_t>(agg_sum_double, agg_sum_double_skip_val); sym_cover("fsum"); }
HARNESS(h_sum_float) { fsum<float, int32_t>(agg_sum_float, agg_sum_float_skip_val); }
// ----- MIN / MAX
template <class T, class A, bool MAX, class F, class G> static void mm(F f, G skip) {
  Rows<T> r = rows<T>();
  const T n = sqlNull<T>();
  T lowest = std::is_floating_point_v<T> ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
  A a = toSlot<A>(MAX ? lowest : std::numeric_limits<T>::max()), b = toSlot<A>(n);
  bool any = false;
  for (int i = 0; i < r.n; ++i) {
    if constexpr (std::is_floating_point_v<T>) sym_assume(r.v[i] >= lowest && r.v[i] <= std::numeric_limits<T>::max());
    f(&a, r.v[i]);
    skip(&b, r.v[i], n);
    any |= !r.null(i);
  }
  T g = fromSlot<A, T>(a), h = fromSlot<A, T>(b);
  sym_observe((uint64_t)b);
  bool bound = true, attained = false, boundN = true, attainedN = false;
  for (int i = 0; i < r.n; ++i) {
    bool z = r.null(i);
    bound &= MAX ? g >= r.v[i] : g <= r.v[i];
    attained |= g == r.v[i];
    boundN &= z | (MAX ? h >= r.v[i] : h <= r.v[i]);
    attainedN |= !z & (h == r.v[i]);
  }
  sym_assert(bound & attained, MAX ? "MAX is the largest value" : "MIN is the smallest value");
  sym_assert(any ? boundN & attainedN : h == n, MAX ? "MAX of the non-NULL rows" : "MIN of the non-NULL rows");
}
#define MM(name, T, A, sfx)                                                                \
  HARNESS(h_max_##name) { mm<T, A, true>(agg_max##sfx, agg_max##sfx##_skip_val); }          \
  HARNESS(h_min_##name) { mm<T, A, false>(agg_min##sfx, agg_min##sfx##_skip_val); sym_cover("min " #name); }
MM(int64, int64_t, int64_t, )
MM(int32, int32_t, int32_t, _int32)
MM(int16, int16_t, int16_t, _int16)
MM(int8, int8_t, int8_t, _int8)
MM(double, double, int64_t, _double)
MM(float, float, int32_t, _float)
// ----- SINGLE_VALUE: the only distinct non-NULL value, an error when there are two
template <class T, class A, class F> static void single(F f) {
  Rows<T> r = rows<T>();
  const T n = sqlNull<T>();
  A a = toSlot<A>(n);
  bool err = false, any = false, two = false;
  T first = n;
  for (int i = 0; i < r.n; ++i) {
    if constexpr (std::is_floating_point_v<T>) sym_assume(r.v[i] == r.v[i] && bitsOf(r.v[i]) != (1ull << (sizeof(T) * 8 - 1)));
    int rc = f(&a, r.v[i], n);
    sym_assert(rc == 0 || rc == 15, "error code");
    err |= rc != 0;
    bool z = r.null(i);
    two |= !z & any & (r.v[i] != first);
    first = (!z & !any) ? r.v[i] : first;
    any |= !z;
  }
  sym_observe((uint64_t)a);
  sym_assert(err == two, "SINGLE_VALUE fails exactly when two values differ");
  sym_assert(err || fromSlot<A, T>(a) == first, "SINGLE_VALUE yields the value");
}
#define SV(name, T, A, sfx) HARNESS(h_single_##name) { single<T, A>(checked_single_agg_id##sfx); }
SV(int64, int64_t, int64_t, )
SV(int32, int32_t, int32_t, _int32)
SV(int16, int16_t, int16_t, _int16)
SV(int8, int8_t, int8_t, _int8)
SV(double, double, int64_t, _double)
SV(float, float, int32_t, _float)
// ----- SAMPLE / projections
HARNESS(h_id) {
  int64_t x = sym_i64("x"), a = sym_i64("slot");
  int32_t a32 = (int32_t)a; int16_t a16 = (int16_t)a; int8_t a8 = (int8_t)a;
  int64_t ad = a; int32_t af = a32;
  int64_t s = a;
  agg_id(&a, x); agg_id_int32(&a32, (int32_t)x); agg_id_int16(&a16, (int16_t)x); agg_id_int8(&a8, (int8_t)x);
  agg_id_double(&ad, fromSlot<int64_t, double>(x)); agg_id_float(&af, fromSlot<int32_t, float>((int32_t)x));
  sym_observe(a);
  sym_assert(a == x && a32 == (int32_t)x && a16 == (int16_t)x && a8 == (int8_t)x, "the stored value is the given one");
  sym_assert(same(fromSlot<int64_t, double>(ad), fromSlot<int64_t, double>(x)) && same(fromSlot<int32_t, float>(af), fromSlot<int32_t, float>((int32_t)x)), "the stored floating value is the given one");
  int64_t p = s, init = sym_i64("init");
  write_projection_int64((int8_t*)&p, x, init);
  sym_assert(p == (x == init ? s : x), "projection writes anything but the initial value");
  int32_t q = (int32_t)s;
  write_projection_int32((int8_t*)&q, (int32_t)x, (int32_t)init);
  sym_assert(q == ((int32_t)x == (int32_t)init ? (int32_t)s : (int32_t)x), "32-bit projection");
  int32_t err = sym_i32("err"), e0 = err, c = sym_i32("code");
  record_error_code(c, &err);
  sym_assert(err == (c && e0 <= 0 ? c : e0), "a persistent error is never overwritten");
  sym_assert(get_error_code(&err) == err, "the recorded error is read back");
  sym_cover("id");
}
HARNESS(h_varlen) {
  int8_t buf[8], src[4];
  sym_make(buf, 8, "buf");
  sym_make(src, 4, "src");
  int8_t old[8];
  memcpy(old, buf, 8);
  int off = sym_choose("offset", 0, 4), n = sym_choose("size", 0, 4);
  int8_t* r = agg_id_varlen(buf, off, src, n);
  sym_assert(r == buf + off, "returns the slot");
  for (int i = 0; i < 8; ++i) sym_assert(buf[i] == (i >= off && i < off + n ? src[i - off] : old[i]), "copies exactly the bytes");
  sym_observe(buf[0]);
}
