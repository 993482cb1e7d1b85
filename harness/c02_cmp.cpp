// @bounds all operand values of every type (8/16/32/64-bit integers, float, double); loop-free code, no unrolling bound
// @assume boolean operands are false, true or NULL; a non-nullable operand is never the NULL sentinel
#include "rtf.h"
static const int8_t NB = -128;
#define CMP1(T, op, sym)                                                                             \
  {                                                                                                  \
    int8_t g = op##_##T##_nullable(a, b, n, NB);                                                     \
    sym_observe((uint8_t)g);                                                                         \
    sym_assert(g == ((a == n || b == n) ? NB : (int8_t)(a sym b)), #op " nullable");                 \
    g = op##_##T##_nullable_lhs(a, b, n, NB);                                                        \
    if (b != n) sym_assert(g == (a == n ? NB : (int8_t)(a sym b)), #op " nullable lhs");             \
    g = op##_##T##_nullable_rhs(a, b, n, NB);                                                        \
    if (a != n) sym_assert(g == (b == n ? NB : (int8_t)(a sym b)), #op " nullable rhs");             \
  }
#define CMP_ENTRY(TT)                                    \
  HARNESS(h_cmp_##TT) {                                  \
    TT a = symT<TT>("a"), b = symT<TT>("b");             \
    const TT n = sqlNull<TT>();                          \
    CMP1(TT, eq, ==)                                     \
    CMP1(TT, ne, !=)                                     \
    CMP1(TT, lt, <)                                      \
    CMP1(TT, le, <=)                                     \
    CMP1(TT, gt, >)                                      \
    CMP1(TT, ge, >=)                                     \
    if (a == n) sym_cover("null " #TT);                  \
    else sym_cover("value " #TT);                        \
  }
CMP_ENTRY(int8_t)
CMP_ENTRY(int16_t)
CMP_ENTRY(int32_t)
CMP_ENTRY(int64_t)
CMP_ENTRY(float)
CMP_ENTRY(double)
// Kleene logic: false=0, unknown=1, true=2; and=min, or=max, not=2-x
static int rank(int8_t v) { return v == NB ? 1 : v ? 2 : 0; }
static int8_t unrank(int r) { return r == 1 ? NB : r == 2 ? 1 : 0; }
HARNESS(h_logic) {
  int8_t a = sym_i8("a"), b = sym_i8("b");
  sym_assume(a == 0 || a == 1 || a == NB);
  sym_assume(b == 0 || b == 1 || b == NB);
  int ra = rank(a), rb = rank(b);
  int8_t x = logical_and(a, b, NB), o = logical_or(a, b, NB), t = logical_not(a, NB);
  sym_observe((uint8_t)x);
  sym_observe((uint8_t)o);
  sym_observe((uint8_t)t);
  sym_assert(x == unrank(ra < rb ? ra : rb), "three-valued AND");
  sym_assert(o == unrank(ra > rb ? ra : rb), "three-valued OR");
  sym_assert(t == unrank(2 - ra), "three-valued NOT");
  sym_assert(logical_not(logical_and(a, b, NB), NB) == logical_or(logical_not(a, NB), logical_not(b, NB), NB), "De Morgan");
  sym_cover("logic");
}
