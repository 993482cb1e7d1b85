// @bounds all source values of every type pair; loop-free code, no unrolling bound
// @assume the value is representable in the target type (the engine's generated overflow test guards the call); floating to integer rounding adds a half in the operand's own precision
#include "rtf.h"
#define CK(F, T, ex)                                                                  \
  {                                                                                   \
    F a = symT<F>("a");                                                               \
    T g = cast_##F##_to_##T##_nullable(a, sqlNull<F>(), sqlNull<T>());                \
    sym_observe(bitsOf(g));                                                           \
    sym_assert(same<T>(g, a == sqlNull<F>() ? sqlNull<T>() : (T)(ex)), #F " to " #T); \
  }
// widening and narrowing integers: NULL maps to NULL, in-range values keep their value
#define NARROW(F, T)                                                                       \
  {                                                                                        \
    F a = symT<F>("a");                                                                    \
    if (a == sqlNull<F>() || ((__int128)a > (__int128)std::numeric_limits<T>::min() &&     \
                              (__int128)a <= (__int128)std::numeric_limits<T>::max())) {   \
      T g = cast_##F##_to_##T##_nullable(a, sqlNull<F>(), sqlNull<T>());                   \
      sym_observe(bitsOf(g));                                                              \
      if (a == sqlNull<F>()) sym_assert(g == sqlNull<T>(), #F " to " #T " null");          \
      else sym_assert((__int128)g == (__int128)a, #F " to " #T " value");                  \
      sym_cover(#F " to " #T);                                                             \
    }                                                                                      \
  }
HARNESS(h_int_widen) {
  NARROW(int8_t, int16_t) NARROW(int8_t, int32_t) NARROW(int8_t, int64_t)
  NARROW(int16_t, int32_t) NARROW(int16_t, int64_t) NARROW(int32_t, int64_t)
}
HARNESS(h_int_narrow) {
  NARROW(int16_t, int8_t) NARROW(int32_t, int8_t) NARROW(int64_t, int8_t)
  NARROW(int32_t, int16_t) NARROW(int64_t, int16_t) NARROW(int64_t, int32_t)
}
HARNESS(h_int_to_fp) {
  CK(int8_t, float, a) CK(int16_t, float, a) CK(int32_t, float, a) CK(int64_t, float, a)
  CK(int8_t, double, a) CK(int16_t, double, a) CK(int32_t, double, a) CK(int64_t, double, a)
}
HARNESS(h_fp_fp) {
  CK(float, double, a)
  CK(double, float, a)
}
// reading a dictionary index narrower than its logical type: unsigned, NULL is the widest value
HARNESS(h_dict_index) {
  uint8_t a = sym_u8("a");
  int32_t g = cast_uint8_t_to_int32_t_nullable(a, 255, INT32_MIN);
  sym_assert(g == (a == 255 ? INT32_MIN : (int32_t)a), "8-bit index");
  uint16_t b = sym_u16("b");
  g = cast_uint16_t_to_int32_t_nullable(b, 65535, INT32_MIN);
  sym_assert(g == (b == 65535 ? INT32_MIN : (int32_t)b), "16-bit index");
}
#define ROUND(F, T)                                                                                     \
  HARNESS(h_round_##F##_##T) {                                                                          \
    F a = symT<F>("a");                                                                                 \
    const F lo = (F)std::numeric_limits<T>::min(), hi = -lo;                                            \
    if (a == sqlNull<F>()) {                                                                            \
      sym_assert(cast_##F##_to_##T##_nullable(a, sqlNull<F>(), sqlNull<T>()) == sqlNull<T>(), "null");  \
      sym_cover("null " #F " " #T);                                                                     \
    } else {                                                                                            \
      F s = a + (a < 0 ? (F)-0.5 : (F)0.5);                                                             \
      sym_assume(s > lo && s < hi);                                                                     \
      T g = cast_##F##_to_##T##_nullable(a, sqlNull<F>(), sqlNull<T>());                                \
      sym_observe(bitsOf(g));                                                                           \
      sym_assert(g == (T)s, "rounds half away from zero");                                              \
      sym_cover("value " #F " " #T);                                                                    \
    }                                                                                                   \
  }
ROUND(float, int8_t)
ROUND(float, int16_t)
ROUND(float, int32_t)
ROUND(float, int64_t)
ROUND(double, int8_t)
ROUND(double, int16_t)
ROUND(double, int32_t)
ROUND(double, int64_t)
// the rounding itself is nearest, ties away from zero, on the range where halves are exact
HARNESS(h_round_nearest) {
  float a = sym_f32("a");
  sym_assume(a >= -2000000.f && a <= 2000000.f && a != sqlNull<float>());
  sym_assume(!(a > -0.5f && a < 0.5f));
  int32_t g = cast_float_to_int32_t_nullable(a, sqlNull<float>(), INT32_MIN);
  float d = a - (float)g;
  sym_assert(d >= -0.5f && d <= 0.5f, "nearest");
  if (d == 0.5f) sym_assert(a < 0, "tie away from zero");
  if (d == -0.5f) sym_assert(a > 0, "tie away from zero");
}
HARNESS(h_scaled) {
  int64_t a = sym_i64("a");
  double m = sym_f64("m");
  double g = cast_int64_t_to_double_scaled_nullable(a, INT64_MIN, sqlNull<double>(), m);
  sym_assert(same<double>(g, a == INT64_MIN ? sqlNull<double>() : m * (double)a), "decimal to double");
  float mf = sym_f32("mf");
  float gf = cast_int64_t_to_float_scaled_nullable(a, INT64_MIN, sqlNull<float>(), mf);
  sym_assert(same<float>(gf, a == INT64_MIN ? sqlNull<float>() : mf * (float)a), "decimal to float");
  sym_cover("scaled");
}
