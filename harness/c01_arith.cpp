// @bounds all operand values of every type (8/16/32/64-bit integers, float, double); loop-free code, no unrolling bound
// @assume a non-nullable operand is never the NULL sentinel value; divisors are non-zero unless the operation itself guards division; the quotient of the smallest integer by -1 is excluded (traps in hardware)
#include "rtf.h"
template <class T> struct Wide { using U = std::make_unsigned_t<T>; };
#define CHK(name, got, isnull, val)                          \
  {                                                          \
    T g_ = (got);                                            \
    sym_observe(bitsOf(g_));                                 \
    sym_assert(same<T>(g_, pick<T>(isnull, n, (T)(val))), name); \
  }
#define BIN(T, op, sym, guard)                                                                      \
  if (guard) {                                                                                      \
    CHK(#op " nullable", op##_##T##_nullable(a, b, n), a == n || b == n, W(a) sym W(b))             \
    if (b != n) CHK(#op " nullable lhs", op##_##T##_nullable_lhs(a, b, n), a == n, W(a) sym W(b))   \
    if (a != n) CHK(#op " nullable rhs", op##_##T##_nullable_rhs(a, b, n), b == n, W(a) sym W(b))   \
  }
#define INT_ENTRY(TT, WW)                                                                 \
  HARNESS(h_arith_##TT) {                                                                 \
    using T = TT;                                                                         \
    using W = WW;                                                                         \
    T a = symT<T>("a"), b = symT<T>("b");                                                 \
    const T n = sqlNull<T>();                                                             \
    BIN(TT, add, +, true)                                                                 \
    BIN(TT, sub, -, true)                                                                 \
    BIN(TT, bw_and, &, true)                                                              \
    BIN(TT, bw_or, |, true)                                                               \
    BIN(TT, bw_xor, ^, true)                                                              \
    CHK("bitwise not", bw_not_##TT##_nullable(a, n), a == n, ~a)                          \
    CHK("unary minus", uminus_##TT##_nullable(a, n), a == n, W(0) - W(a))                 \
    sym_cover("arith " #TT);                                                              \
  }                                                                                       \
  HARNESS(h_mul_##TT) {                                                                   \
    using T = TT;                                                                         \
    using W = WW;                                                                         \
    T a = symT<T>("a"), b = symT<T>("b");                                                 \
    const T n = sqlNull<T>();                                                             \
    BIN(TT, mul, *, true)                                                                 \
  }                                                                                       \
  HARNESS(h_div_##TT) {                                                                   \
    using T = TT;                                                                         \
    using W = T;                                                                          \
    T a = symT<T>("a"), b = symT<T>("b");                                                 \
    const T n = sqlNull<T>();                                                             \
    sym_assume(!(a == n && b == T(-1)));                                                  \
    BIN(TT, div, /, b != 0)                                                               \
    BIN(TT, mod, %, b != 0)                                                               \
    CHK("guarded division", safe_div_##TT(a, b, n), a == n || b == n || b == 0, b == 0 ? 0 : a / (b == 0 ? 1 : b)) \
    sym_cover("div " #TT);                                                                \
  }
INT_ENTRY(int8_t, int32_t)
INT_ENTRY(int16_t, int32_t)
INT_ENTRY(int32_t, uint32_t)
INT_ENTRY(int64_t, uint64_t)
#define FP_ENTRY(TT)                                                                      \
  HARNESS(h_fp_##TT) {                                                                    \
    using T = TT;                                                                         \
    using W = TT;                                                                         \
    T a = symT<T>("a"), b = symT<T>("b");                                                 \
    const T n = sqlNull<T>();                                                             \
    BIN(TT, add, +, true)                                                                 \
    BIN(TT, sub, -, true)                                                                 \
    BIN(TT, mul, *, true)                                                                 \
    BIN(TT, div, /, true)                                                                 \
    CHK("guarded division", safe_div_##TT(a, b, n), a == n || b == n || b == 0, a / b)    \
    CHK("unary minus", uminus_##TT##_nullable(a, n), a == n, -a)                          \
    const T inf = symT<T>("inf");                                                         \
    T q = safe_inf_div_##TT(a, b, inf, n);                                                \
    T e = b != 0 ? a / b : a > 0 ? inf : a == 0 ? n : -inf;                               \
    sym_observe(bitsOf(q));                                                               \
    sym_assert(same<T>(q, e), "division with infinity");                                  \
    sym_cover("fp " #TT);                                                                 \
  }
FP_ENTRY(float)
FP_ENTRY(double)
