// @bounds every 64-bit operand; scales 10^0..10^18 one by one
// @assume operands stay at least one scale unit away from the 64-bit limits (the next multiple is representable)
#include "rtf.h"
static int64_t p10(int k) { int64_t r = 1; while (k--) r *= 10; return r; }
static int64_t chooseScale() {
  int k = sym_choose("k", 0, 18);
  return p10(k);
}
HARNESS(h_scale_up) {
  int64_t x = sym_i64("x"), s = chooseScale();
  int64_t nu = sym_i64("resnull");
  int64_t g = scale_decimal_up(x, s, INT64_MIN, nu);
  sym_observe(g);
  sym_assert(g == (x == INT64_MIN ? nu : (int64_t)((uint64_t)x * (uint64_t)s)), "scaling up multiplies, NULL stays NULL");
}
HARNESS(h_scale_down) {
  int64_t x = sym_i64("x"), s = chooseScale();
  bool nullable = sym_bool("nullable");
  if (nullable && x == INT64_MIN) {
    sym_assert(scale_decimal_down_nullable(x, s, INT64_MIN) == INT64_MIN, "NULL stays NULL");
    sym_cover("null");
    return;
  }
  sym_assume(x <= INT64_MAX - s && x >= INT64_MIN + s);
  int64_t q = nullable ? scale_decimal_down_nullable(x, s, INT64_MIN) : scale_decimal_down_not_nullable(x, s, INT64_MIN);
  sym_observe(q);
  int64_t d = (int64_t)((uint64_t)x - (uint64_t)q * (uint64_t)s);
  int64_t h = s >> 1;
  // nearest multiple, a tie moves away from zero, and no wrap-around of the product
  sym_assert(q >= INT64_MIN / s && q <= INT64_MAX / s, "quotient in range");
  if (s == 1) sym_assert(q == x, "identity");
  else {
    sym_assert(d >= -h && d <= h, "nearest multiple");
    if (x >= 0) sym_assert(d < h, "tie rounds up in magnitude");
    else sym_assert(d > -h, "tie rounds down in magnitude");
  }
  sym_cover("scaled down");
}
HARNESS(h_floor_div) {
  int64_t x = sym_i64("x"), s = chooseScale();
  if (x == INT64_MIN) {
    sym_assert(floor_div_nullable_lhs(x, s, INT64_MIN) == INT64_MIN, "NULL stays NULL");
    return;
  }
  sym_assume(x >= INT64_MIN + s);
  int64_t q = floor_div_nullable_lhs(x, s, INT64_MIN), q2 = floor_div_lhs(x, s);
  sym_observe(q);
  int64_t d = (int64_t)((uint64_t)x - (uint64_t)q * (uint64_t)s);
  sym_assert(q2 == q, "both forms agree");
  sym_assert((s == 1 || q >= INT64_MIN / s - 1) && q <= INT64_MAX / s, "quotient in range");
  sym_assert(d >= 0 && d < s, "floor of the quotient");
  sym_cover("floor_div");
}
HARNESS(h_floor_ceil) {
  int64_t x = sym_i64("x"), s = chooseScale();
  sym_assume(x <= INT64_MAX - s && x >= INT64_MIN + s);
  int64_t f = decimal_floor(x, s), c = decimal_ceil(x, s);
  sym_observe(f);
  sym_observe(c);
  sym_assert(f % s == 0, "floor is a multiple");
  sym_assert(f <= x && x - f < s, "floor is the greatest multiple below");
  sym_assert(c % s == 0, "ceiling is a multiple");
  sym_assert(c >= x && c - x < s, "ceiling is the least multiple above");
  sym_cover("floor_ceil");
}
