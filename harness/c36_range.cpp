// @sources omniscidb/QueryEngine/ExpressionRange.cpp omniscidb/QueryEngine/DateTimeTranslator.cpp omniscidb/IR/Expr.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp
// @flags -iquote $VERIF/stubs/rel -iquote $VERIF/stubs/range -I$VERIF/stubs/boostpred -I$VERIF/stubs/range -include $VERIF/stubs/Logger/Logger.h -include $VERIF/stubs/range/Execute.h
// @bounds every 64-bit range on one side and 11 fixed ranges on the other for +, - (thorough: every pair of ranges) and * and /; every pair of 64-bit ranges for union; casts between all integer, decimal (scale 0..18), date and timestamp types, from decimals and integers to floating point up to 2^31 (thorough: 2^53), from single precision (thorough: double) to integers; all EXTRACT and DATE_TRUNC fields at all precisions; one filter (every comparison, every constant, with and without a cast); column statistics of every type; CASE of two branches
// @assume the values of a column lie in the range of the column; results that do not fit their type raise an error at run time; ExtractFromTime(YEAR) and DateTruncate replaced by monotone stand-ins (C12 and C13 decide what they compute); boost's checked integer replaced by one of exactly 64 bits
#include "IR/Context.h"
#include "IR/Expr.h"
#include "QueryEngine/DateTimeUtils.h"
#include "sym.h"
#include <cfenv>
using namespace hdk::ir;
typedef __int128 i128;
extern "C" int feclearexcept(int) noexcept { return 0; }
extern "C" int fetestexcept(int) noexcept { return 0; }
static Context& ctx() { return Context::defaultCtx(); }
static int64_t pow10i(int s) { int64_t p = 1; for (int i = 0; i < s; i++) p *= 10; return p; }
static int64_t perSecond(int u) { return pow10i(3 * u); }
static const TimeUnit units[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
// monotone, and telling apart what it is asked
int64_t ExtractFromTime(DateExtractField f, const int64_t t) {
  if (f == DateExtractField::kEpoch) return t;
  if (f == DateExtractField::kDateEpoch) return t & ~int64_t(65535);
  return t >> 25;
}
int64_t DateTruncate(DateTruncField f, const int64_t t) {
  if (f == DateTruncField::kSecond || f == DateTruncField::kMilli || f == DateTruncField::kMicro || f == DateTruncField::kNano) return t;
  return t & ~((int64_t(1) << (8 + (int)f % 8)) - 1);
}
int64_t truncate_high_precision_timestamp_to_date(const int64_t t, const int64_t s) {
  int64_t q = t / s - (t % s < 0);
  return DateTruncate(DateTruncField::kDay, q);
}
static Executor* E() { static Executor e; return &e; }
static std::vector<InputTableInfo>& QI() { static std::vector<InputTableInfo> q(2); return q; }
static ExprPtr col(const Type* t, int id = 0, int rte = 0) { return makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, 5, id, "c", t, false), rte); }
static ExprPtr K(const Type* t, int64_t v) { Datum d{0}; d.bigintval = v; if (t->size() == 4) d.intval = v; if (t->size() == 2) d.smallintval = v; if (t->size() == 1) d.tinyintval = v; return makeExpr<Constant>(t, false, d); }
static ExpressionRange rangeOf(const ExprPtr& e, boost::optional<std::list<ExprPtr>> q = boost::none) { return getExpressionRange(e.get(), QI(), E(), q); }
static bool in(const ExpressionRange& r, int64_t v) { return r.getType() == ExpressionRangeType::Integer && r.getIntMin() <= v && v <= r.getIntMax(); }
static bool invalid(const ExpressionRange& r) { return r.getType() == ExpressionRangeType::Invalid; }
struct V { int64_t lo, hi, x; bool nulls; };
// a column with an arbitrary range and an arbitrary value in it
static V value(int id, int64_t min = INT64_MIN + 1, int64_t max = INT64_MAX) {
  static const char* nm[2][3] = {{"min a", "max a", "value a"}, {"min b", "max b", "value b"}};
  V v{sym_range64(nm[id][0], min, max), sym_range64(nm[id][1], min, max), 0, sym_bool(id ? "b has NULLs" : "a has NULLs")};
  v.x = sym_i64(nm[id][2]);
  sym_assume(v.lo <= v.x && v.x <= v.hi);
  E()->ranges[id] = ExpressionRange::makeIntRange(v.lo, v.hi, 0, v.nulls);
  return v;
}
static ExprPtr op(OpType o, ExprPtr a, ExprPtr b) { return makeExpr<BinOper>(a->type(), false, o, Qualifier::kOne, a, b); }
static const int64_t FR[][2] = {{0, 0}, {1, 1}, {-1, -1}, {2, 7}, {-5, 3}, {10, 1000000}, {-3, 4611686018427387904LL}, {-4611686018427387904LL, 4}, {INT64_MIN + 1, INT64_MAX}, {1000000007, 1000000007}, {-9, -2}};
#ifdef THOROUGH
static V other() { return value(1); }
#else
static V other() {
  int k = sym_choose("other", 0, 10);
  V v{FR[k][0], FR[k][1], sym_range64("value b", FR[k][0], FR[k][1]), sym_bool("b has NULLs")};
  E()->ranges[1] = ExpressionRange::makeIntRange(v.lo, v.hi, 0, v.nulls);
  return v;
}
#endif
HARNESS(h_plus_minus) {
  V a = value(0), b = other();
  if (sym_choose("swapped", 0, 1)) { std::swap(a, b); std::swap(E()->ranges[0], E()->ranges[1]); }
  bool plus = sym_choose("plus", 0, 1);
  auto r = rangeOf(op(plus ? OpType::kPlus : OpType::kMinus, col(ctx().int64()), col(ctx().int64(), 1)));
  int64_t v, l, h;
  bool vo = plus ? __builtin_add_overflow(a.x, b.x, &v) : __builtin_sub_overflow(a.x, b.x, &v);
  bool lo = plus ? __builtin_add_overflow(a.lo, b.lo, &l) : __builtin_sub_overflow(a.lo, b.hi, &l);
  bool ho = plus ? __builtin_add_overflow(a.hi, b.hi, &h) : __builtin_sub_overflow(a.hi, b.lo, &h);
  if (!lo && !ho && l != INT64_MIN) { sym_cover("range of a sum"); ASSERTM(!invalid(r), "a range that fits is known"); }
  if (vo || invalid(r)) return;
  ASSERTM(in(r, v), "sum or difference in the range");
  ASSERTM(r.hasNulls() == (a.nulls || b.nulls), "NULLs of an operand");
  ASSERTM(r.getBucket() == 0, "no spacing is known");
}
static bool mulFits(int64_t x, int64_t c, int64_t& r) { return !__builtin_mul_overflow(x, c, &r); }
HARNESS(h_mul) {
  int k = sym_choose("other", 0, 10), which = sym_choose("other value", 0, 2), swap = sym_choose("swapped", 0, 1);
  int64_t lo = FR[k][0], hi = FR[k][1], y = which == 0 ? lo : which == 1 ? hi : (int64_t)(((i128)lo + hi) / 2);
  V a = value(0);
  bool n = sym_bool("b has NULLs");
  E()->ranges[1] = ExpressionRange::makeIntRange(lo, hi, 0, n);
  auto x = col(ctx().int64()), z = col(ctx().int64(), 1);
  auto r = rangeOf(swap ? op(OpType::kMul, z, x) : op(OpType::kMul, x, z));
  if (a.lo > -1000000 && a.hi < 1000000 && hi <= 1000000) { sym_cover("range of a product"); ASSERTM(!invalid(r) || lo < -1000000, "a range that fits is known"); }
  if (invalid(r)) return;
  int64_t p;
  if (!mulFits(a.x, y, p)) return;
  ASSERTM(in(r, p), "product in the range");
  ASSERTM(r.hasNulls() == (a.nulls || n), "NULLs of an operand");
}
HARNESS(h_div) {
  int k = sym_choose("other", 0, 10), which = sym_choose("other value", 0, 3);
  int64_t lo = FR[k][0], hi = FR[k][1], y = which == 0 ? lo : which == 1 ? hi : which == 2 ? (int64_t)(((i128)lo + hi) / 2) : lo <= 1 && hi >= 1 ? 1 : lo <= -1 && hi >= -1 ? -1 : lo;
  V a = value(0);
  bool n = sym_bool("b has NULLs"), ndz = sym_bool("division by zero is NULL");
  E()->ranges[1] = ExpressionRange::makeIntRange(lo, hi, 0, n);
  E()->cfg.exec.codegen.null_div_by_zero = ndz;
  auto r = rangeOf(op(OpType::kDiv, col(ctx().int64()), col(ctx().int64(), 1)));
  if (lo > 0) { sym_cover("range of a quotient"); ASSERTM(!invalid(r), "a quotient by positive numbers is known"); }
  if (invalid(r)) return;
  ASSERTM(r.hasNulls() || !(a.nulls || n || (ndz && lo <= 0 && hi >= 0)), "NULLs of an operand");
  if (y == 0) return;
  ASSERTM(in(r, a.x / y), "quotient in the range");
}
// the divisor's range is arbitrary
HARNESS(h_div_by_range) {
  static const int64_t N[][3] = {{7, 9, 8}, {-100, 5, -100}, {-100, 5, 5}};
  int k = sym_choose("dividend", 0, 2);
  int64_t y = sym_choose("divisor", -2, 2), lo = sym_range64("min b", INT64_MIN + 1, INT64_MAX), hi = sym_range64("max b", INT64_MIN + 1, INT64_MAX);
  sym_assume(y != 0 && lo <= y && y <= hi);
  E()->ranges[0] = ExpressionRange::makeIntRange(N[k][0], N[k][1], 0, false);
  E()->ranges[1] = ExpressionRange::makeIntRange(lo, hi, 0, false);
  auto r = rangeOf(op(OpType::kDiv, col(ctx().int64()), col(ctx().int64(), 1)));
  sym_cover("divisor range");
  ASSERTM(invalid(r) || in(r, N[k][2] / y), "quotient in the range");
}
HARNESS(h_div_decimal) {
  int s = sym_choose("scale", 0, 18);
  int64_t d = sym_choose("divisor", 0, 2), y = d == 0 ? 1 : d == 1 ? -3 : 12345;
  V a = value(0);
  E()->ranges[1] = ExpressionRange::makeIntRange(y, y, 0, false);
  auto t = ctx().decimal64(19, s);
  auto r = rangeOf(op(OpType::kDiv, col(t), col(t, 1)));
  int64_t p;
  if (!mulFits(a.x, pow10i(s), p)) return;  // raises an error
  sym_cover("decimal quotient");
  ASSERTM(invalid(r) || in(r, p / y), "quotient in the range");
}
HARNESS(h_union) {
  V a = value(0), b = value(1);
  bool useB = sym_bool("second branch");
  auto c = makeExpr<CaseExpr>(ctx().int64(), false, std::list<std::pair<ExprPtr, ExprPtr>>{{K(ctx().boolean(), 1), col(ctx().int64())}, {K(ctx().boolean(), 1), col(ctx().int64(), 1)}}, K(ctx().int64(), 3));
  E()->ranges[0] = ExpressionRange::makeIntRange(a.lo, a.hi, 7 * 86400, a.nulls);
  E()->ranges[1] = ExpressionRange::makeIntRange(b.lo, b.hi, 28 * 86400, b.nulls);
  auto r = rangeOf(c);
  sym_cover("case");
  // a.x and b.x, or b.x and 3, are as close as one likes
  ASSERTM(r.getBucket() <= 1, "values of different branches have no known spacing");
  ASSERTM(in(r, useB ? b.x : a.x) && in(r, 3), "every branch in the range");
  ASSERTM(r.hasNulls() == (a.nulls || b.nulls), "NULLs of a branch");
  Datum d{0};
  auto c2 = makeExpr<CaseExpr>(ctx().int64(), false, std::list<std::pair<ExprPtr, ExprPtr>>{{K(ctx().boolean(), 1), col(ctx().int64())}}, makeExpr<Constant>(ctx().int64(), true, d));
  auto r2 = rangeOf(c2);
  ASSERTM(in(r2, a.x) && r2.hasNulls(), "ELSE NULL");
  auto c3 = makeExpr<CaseExpr>(ctx().int64(), false, std::list<std::pair<ExprPtr, ExprPtr>>{{K(ctx().boolean(), 1), makeExpr<Constant>(ctx().int64(), true, d)}}, col(ctx().int64()));
  auto r3 = rangeOf(c3);
  ASSERTM(invalid(r3) || (in(r3, a.x) && r3.hasNulls()), "THEN NULL");
}
// spacing: distinct values are at least the spacing apart
static const DateTruncField tfs[] = {DateTruncField::kYear, DateTruncField::kQuarter, DateTruncField::kMonth, DateTruncField::kDay, DateTruncField::kHour, DateTruncField::kMinute, DateTruncField::kSecond, DateTruncField::kMillennium, DateTruncField::kCentury, DateTruncField::kDecade, DateTruncField::kQuarterDay, DateTruncField::kWeek, DateTruncField::kWeekSunday, DateTruncField::kWeekSaturday, DateTruncField::kMilli, DateTruncField::kMicro, DateTruncField::kNano};
static const int64_t D = 86400;
static const int64_t gap[] = {365 * D, 90 * D, 28 * D, D, 3600, 60, 1, 365242 * D, 36524 * D, 3652 * D, 21600, 7 * D, 7 * D, 7 * D, 0, 0, 0};
HARNESS(h_trunc) {
  int u = sym_choose("unit", 0, 3), f = sym_choose("field", 0, 16);
  if (u == 3 && f == 7) return;  // the start of a millennium does not fit 64 bits
  bool date = u == 0 && sym_choose("date", 0, 1);
  V a = value(0, -(int64_t(1) << 61), int64_t(1) << 61);
  auto t = date ? (const Type*)ctx().date64(TimeUnit::kSecond) : ctx().timestamp(units[u]);
  auto r = rangeOf(makeExpr<DateTruncExpr>(t, false, tfs[f], col(t)));
  sym_cover("date_trunc");
  if (invalid(r)) return;
  int64_t v;
  int sub = f - 13;  // 1..3: milli, micro, nano
  if (sub > 0) {
    if (sub >= u) v = a.x;
    else { int64_t s = perSecond(u - sub); int64_t m = a.x % s; v = a.x - (m < 0 ? m + s : m); }
  } else {
    int64_t s = perSecond(u), q = a.x / s - (a.x % s < 0);
    v = DateTruncate(tfs[f], q) * s;
  }
  ASSERTM(in(r, v), "truncated value in the range");
  ASSERTM(r.hasNulls() == a.nulls, "NULLs of the operand");
  ASSERTM(r.getBucket() >= 0 && (sub > 0 ? r.getBucket() <= (sub >= u ? 1 : perSecond(u - sub)) : r.getBucket() <= gap[f] * perSecond(u)), "values are at least the spacing apart");
}
static const DateExtractField efs[] = {DateExtractField::kYear, DateExtractField::kEpoch, DateExtractField::kDateEpoch, DateExtractField::kQuarter, DateExtractField::kMonth, DateExtractField::kDay, DateExtractField::kHour, DateExtractField::kMinute, DateExtractField::kSecond, DateExtractField::kDayOfWeek, DateExtractField::kIsoDayOfWeek, DateExtractField::kDayOfYear, DateExtractField::kQuarterDay, DateExtractField::kWeek, DateExtractField::kWeekSunday, DateExtractField::kWeekSaturday, DateExtractField::kMilli, DateExtractField::kMicro, DateExtractField::kNano};
static const int64_t eb[][2] = {{0, 0}, {0, 0}, {0, 0}, {1, 4}, {1, 12}, {1, 31}, {0, 23}, {0, 59}, {0, 59}, {0, 6}, {1, 7}, {1, 366}, {1, 4}, {1, 53}, {1, 53}, {1, 53}, {0, 59999}, {0, 59999999}, {0, 59999999999LL}};
HARNESS(h_extract) {
  int u = sym_choose("unit", 0, 3), f = sym_choose("field", 0, 18);
  bool date = u == 0 && sym_choose("date", 0, 1);
  V a = value(0);
  auto t = date ? (const Type*)ctx().date64(TimeUnit::kSecond) : ctx().timestamp(units[u]);
  auto r = rangeOf(makeExpr<ExtractExpr>(ctx().int64(), false, efs[f], col(t)));
  sym_cover("extract");
  if (invalid(r)) return;
  ASSERTM(r.hasNulls() == a.nulls, "NULLs of the operand");
  ASSERTM(r.getBucket() == 0, "no spacing is known");
  if (f < 3) {
    int64_t s = perSecond(u), q = a.x / s - (a.x % s < 0);
    ASSERTM(in(r, ExtractFromTime(efs[f], q)), "extracted value in the range");
  } else {
    ASSERTM(in(r, eb[f][0]) && in(r, eb[f][1]), "every value of the field in the range");
  }
}
// a spacing known for the operand (a date column) holds for the seconds, not for other fields
HARNESS(h_extract_spaced) {
  V a = value(0, -1000000 * D, 1000000 * D);
  E()->ranges[0] = ExpressionRange::makeIntRange(a.lo, a.hi, D, a.nulls);
  auto t = ctx().date64(TimeUnit::kSecond);
  int f = sym_choose("field", 0, 18);
  auto r = rangeOf(makeExpr<ExtractExpr>(ctx().int64(), false, efs[f], col(t)));
  sym_cover("extract from dates");
  ASSERTM(invalid(r) || r.getBucket() == 0 || f == 1 || f == 2, "spacing in the unit of the result");
}
static ExprPtr cast(ExprPtr e, const Type* t) { return makeExpr<UOper>(t, false, OpType::kCast, e); }
HARNESS(h_cast_int) {
  static const int sz[] = {1, 2, 4, 8};
  int s = sym_choose("from", 0, 3), d = sym_choose("to", 0, 3);
  int64_t m = s == 3 ? INT64_MAX : (int64_t(1) << (8 * sz[s] - 1)) - 1;
  V a = value(0, -m, m);
  auto r = rangeOf(cast(col(ctx().integer(sz[s])), ctx().integer(sz[d])));
  sym_cover("integer cast");
  ASSERTM(invalid(r) || (in(r, a.x) && r.hasNulls() == a.nulls), "value in the range");
}
HARNESS(h_cast_decimal) {
  int s = sym_choose("from scale", 0, 19) - 1, d = sym_choose("to scale", 0, 19) - 1;  // -1: integer
  if (s < 0 && d < 0) return;
  if (s > 0 && s % 6 && d > 0 && d % 6) return;
  V a = value(0);
  auto from = s < 0 ? (const Type*)ctx().int64() : ctx().decimal64(19, s), to = d < 0 ? (const Type*)ctx().int64() : ctx().decimal64(19, d);
  auto r = rangeOf(cast(col(from), to));
  int fs = s < 0 ? 0 : s, ts = d < 0 ? 0 : d;
  int64_t v;
  if (ts >= fs) {
    if (!mulFits(a.x, pow10i(ts - fs), v)) return;
  } else {
    int64_t p = pow10i(fs - ts), q = a.x / p, m = a.x % p;
    v = q + (m >= p / 2 ? 1 : m <= -(p / 2) ? -1 : 0);
  }
  sym_cover("decimal cast");
  ASSERTM(invalid(r) || in(r, v), "value in the range");
  ASSERTM(invalid(r) || r.hasNulls() == a.nulls, "NULLs");
  if (ts >= fs && a.lo > -1000 && a.hi < 1000 && ts - fs < 15) ASSERTM(!invalid(r), "a range that fits is known");
}
HARNESS(h_cast_time) {
  int s = sym_choose("from", 0, 4), d = sym_choose("to", 0, 4);  // 4: date
  if (s == d) return;
  V a = value(0);
  int us = s == 4 ? 0 : s, ud = d == 4 ? 0 : d;
  auto ty = [](int k) { return k == 4 ? (const Type*)ctx().date64(TimeUnit::kSecond) : ctx().timestamp(units[k]); };
  ExpressionRange r = ExpressionRange::makeInvalidRange();
  try { r = rangeOf(cast(col(ty(s)), ty(d))); } catch (std::runtime_error&) { sym_cover("range does not fit"); return; }
  int64_t v = a.x;
  if (ud > us) { if (!mulFits(a.x, perSecond(ud - us), v)) return; }
  else if (us > ud) { int64_t p = perSecond(us - ud); v = a.x / p - (a.x % p < 0); }
  if (d == 4) v = DateTruncate(DateTruncField::kDay, v);
  sym_cover("time cast");
  ASSERTM(invalid(r) || in(r, v), "value in the range");
  ASSERTM(invalid(r) || r.hasNulls() == a.nulls, "NULLs");
  ASSERTM(invalid(r) || r.getBucket() == 0 || (d == 4 && r.getBucket() <= D), "spacing");
}
static bool fpIn(const ExpressionRange& r, double v) { return (r.getType() == ExpressionRangeType::Float || r.getType() == ExpressionRangeType::Double) && r.getFpMin() <= v && v <= r.getFpMax(); }
HARNESS(h_cast_int_fp) {
  bool dbl = sym_choose("double", 0, 1);
#ifdef THOROUGH
  V a = value(0, -(int64_t(1) << 53), int64_t(1) << 53);
#else
  V a = value(0, -(int64_t(1) << 31), int64_t(1) << 31);
#endif
  auto r = rangeOf(cast(col(ctx().int64()), dbl ? (const Type*)ctx().fp64() : ctx().fp32()));
  sym_cover("integer to floating point");
  ASSERTM(invalid(r) || fpIn(r, dbl ? (double)a.x : (double)(float)a.x), "value in the range");
}
HARNESS(h_cast_fp_int) {
#ifdef THOROUGH
  double lo = sym_f64("min"), hi = sym_f64("max"), x = sym_f64("value");
  E()->ranges[0] = ExpressionRange::makeDoubleRange(lo, hi, true);
  auto t0 = ctx().fp64();
#else
  float lo = sym_f32("min"), hi = sym_f32("max"), x = sym_f32("value");
  E()->ranges[0] = ExpressionRange::makeFloatRange(lo, hi, true);
  auto t0 = ctx().fp32();
#endif
  sym_assume(lo <= x && x <= hi && lo > -9e18 && hi < 9e18);
  auto r = rangeOf(cast(col(t0), ctx().int64()));
  sym_cover("floating point to integer");
  if (invalid(r)) return;
  int64_t t = (int64_t)x;  // rounding half away from zero moves by at most one from the truncated value
  ASSERTM(in(r, t) && r.hasNulls(), "value in the range");
  if (x > (double)t && x > 0 && x < 1e15) ASSERTM(in(r, t + 1), "value rounded up in the range");
  if (x < (double)t && x < 0 && x > -1e15) ASSERTM(in(r, t - 1), "value rounded down in the range");
}
static const OpType cmps[] = {OpType::kEq, OpType::kNe, OpType::kLt, OpType::kLe, OpType::kGt, OpType::kGe};
template <class A> static bool holds(int o, A x, A c) { return o == 0 ? x == c : o == 1 ? x != c : o == 2 ? x < c : o == 3 ? x <= c : o == 4 ? x > c : x >= c; }
static ExprPtr qual(int o, ExprPtr a, ExprPtr c) { return makeExpr<BinOper>(ctx().boolean(), false, cmps[o], Qualifier::kOne, a, c); }
HARNESS(h_filter_int) {
  static const int sz[] = {1, 2, 4, 8};
  int o = sym_choose("comparison", 0, 5), w = sym_choose("constant width", 0, 3), other = sym_choose("filter on", 0, 2);
  V a = value(0);
  int64_t c = w == 3 ? sym_i64("constant") : w == 2 ? sym_i32("constant") : w == 1 ? sym_i16("constant") : sym_i8("constant");
  auto k = K(ctx().integer(sz[w]), c);
  ExprPtr lhs = other == 1 ? col(ctx().int64(), 1) : col(ctx().int64());
  if (other == 2) lhs = cast(lhs, ctx().int32());
  if (other != 1) sym_assume(holds<int64_t>(o, a.x, c));
  auto r = rangeOf(col(ctx().int64()), std::list<ExprPtr>{qual(o, lhs, k)});
  sym_cover("filtered column");
  ASSERTM(in(r, a.x), "a row that passes the filter is in the range");
  ASSERTM(r.getIntMin() >= a.lo && r.getIntMax() <= a.hi, "the filter only narrows the range");
}
HARNESS(h_filter_fp) {
  int o = sym_choose("comparison", 0, 5);
  double lo = sym_f64("min"), hi = sym_f64("max"), x = sym_f64("value"), c = sym_f64("constant");
  sym_assume(lo <= x && x <= hi && holds<double>(o, x, c));
  E()->ranges[0] = ExpressionRange::makeDoubleRange(lo, hi, true);
  Datum d{0};
  d.doubleval = c;
  auto r = rangeOf(col(ctx().fp64()), std::list<ExprPtr>{qual(o, col(ctx().fp64()), makeExpr<Constant>(ctx().fp64(), false, d))});
  sym_cover("filtered floating point column");
  ASSERTM(fpIn(r, x), "a row that passes the filter is in the range");
}
HARNESS(h_filter_time) {
  int o = sym_choose("comparison", 0, 5), s = sym_choose("column", 0, 3), d = sym_choose("constant", 0, 3);
  V a = value(0);
  int64_t c = sym_i64("constant value"), v = a.x;
  if (d > s) { if (!mulFits(a.x, perSecond(d - s), v)) return; }
  else if (s > d) { int64_t p = perSecond(s - d); v = a.x / p - (a.x % p < 0); }
  sym_assume(holds<int64_t>(o, v, c));
  ExprPtr lhs = col(ctx().timestamp(units[s]));
  if (s != d) lhs = cast(lhs, ctx().timestamp(units[d]));
  ExpressionRange r = ExpressionRange::makeInvalidRange();
  try { r = rangeOf(col(ctx().timestamp(units[s])), std::list<ExprPtr>{qual(o, lhs, K(ctx().timestamp(units[d]), c))}); } catch (std::runtime_error&) { sym_cover("constant does not fit"); return; }
  sym_cover("filtered timestamp");
  ASSERTM(in(r, a.x), "a row that passes the filter is in the range");
}
// timestamps filtered by their date
HARNESS(h_filter_date) {
  int o = sym_choose("comparison", 0, 5), s = sym_choose("column", 0, 3);
  V a = value(0, -(int64_t(1) << 62), int64_t(1) << 62);
  int64_t day = sym_range64("day", -100000, 100000), p = D * perSecond(s);
  int64_t q = a.x / p - (a.x % p < 0);
  sym_assume(holds<int64_t>(o, q, day));
  const Type* t = ctx().timestamp(units[s]); const Type* dt = ctx().date64(TimeUnit::kSecond);
  auto r = rangeOf(col(t), std::list<ExprPtr>{qual(o, cast(col(t), dt), K(dt, day * D))});
  sym_cover("filtered by date");
  ASSERTM(in(r, a.x), "a row that passes the filter is in the range");
}
HARNESS(h_constant) {
  static const int sz[] = {1, 2, 4, 8};
  int w = sym_choose("width", 0, 3), kind = sym_choose("kind", 0, 4);
  int64_t c = w == 3 ? sym_i64("constant") : w == 2 ? sym_i32("constant") : w == 1 ? sym_i16("constant") : sym_i8("constant");
  const Type* t = kind == 0 ? (const Type*)ctx().integer(sz[w]) : kind == 1 ? (const Type*)ctx().decimal64(10, 2) : kind == 2 ? (const Type*)ctx().timestamp(TimeUnit::kMilli) : kind == 3 ? (const Type*)ctx().date64(TimeUnit::kSecond) : ctx().time64(TimeUnit::kSecond);
  if (kind && w != 3) return;
  auto r = rangeOf(K(t, c));
  sym_cover("constant");
  ASSERTM(invalid(r) || (in(r, c) && r.getIntMin() == c && r.getIntMax() == c && !r.hasNulls()), "exactly the constant");
  Datum d{0};
  auto r2 = rangeOf(makeExpr<Constant>(t, true, d));
  ASSERTM(invalid(r2) || r2.hasNulls(), "NULL constant");
}
HARNESS(h_constant_fp) {
  bool dbl = sym_choose("double", 0, 1);
  Datum d{0};
  double v;
  if (dbl) v = d.doubleval = sym_f64("value"); else v = d.floatval = sym_f32("value");
  sym_assume(v == v);
  auto r = rangeOf(makeExpr<Constant>(dbl ? (const Type*)ctx().fp64() : ctx().fp32(), false, d));
  sym_cover("floating point constant");
  ASSERTM(invalid(r) || (fpIn(r, v) && r.getFpMin() == v && r.getFpMax() == v), "exactly the constant");
}
HARNESS(h_leaf) {
  static const int sz[] = {1, 2, 4, 8};
  int kind = sym_choose("type", 0, 8), rows = sym_choose("rows", 0, 1) * 1000, outer = sym_choose("outer join", 0, 1), arr = sym_choose("array", 0, 1);
  const Type* t = kind < 4 ? (const Type*)ctx().integer(sz[kind]) : kind == 4 ? (const Type*)ctx().boolean() : kind == 5 ? (const Type*)ctx().decimal64(10, 2) : kind == 6 ? (const Type*)ctx().timestamp(TimeUnit::kMicro) : kind == 7 ? (const Type*)ctx().date64(TimeUnit::kSecond) : ctx().time64(TimeUnit::kSecond);
  int64_t m = kind < 3 ? (int64_t(1) << (8 * sz[kind] - 1)) - 1 : kind == 4 ? 1 : INT64_MAX;
  int64_t lo = sym_range64("min", kind == 4 ? 0 : -m, m), hi = sym_range64("max", kind == 4 ? 0 : -m, m);
  bool nulls = sym_bool("has NULLs"), all = sym_bool("all NULL");
  auto put = [&](Datum& d, int64_t v) { d.bigintval = 0; if (t->size() == 1) d.tinyintval = v; else if (t->size() == 2) d.smallintval = v; else if (t->size() == 4) d.intval = v; else d.bigintval = v; };
  if (all) { lo = m; hi = -m - (kind != 4); if (kind == 4) { lo = 1; hi = 0; } } else sym_assume(lo <= hi);
  ChunkStats st;
  put(st.min, lo);
  put(st.max, hi);
  st.has_nulls = nulls;
  auto info = std::make_shared<TableFragmentsInfo>();
  info->setPhysicalNumTuples(rows);
  TableStats ts;
  ts.emplace(3, st);
  info->setTableStats(ts);
  std::vector<InputTableInfo> q{InputTableInfo{9, -4, info}, InputTableInfo{1, -4, info}};
  q[0].info = std::make_shared<TableFragmentsInfo>();
  E()->outer = outer;
  auto ct = arr ? (const Type*)ctx().arrayVarLen(t) : t;
  auto c = makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, -4, 3, "c", ct, false), 1);
  auto r = getExpressionRange(c.get(), q, E());
  sym_cover("column statistics");
  if (rows == 0) { ASSERTM(invalid(r) || r.getIntMin() > r.getIntMax(), "no row, no value"); return; }
  if (invalid(r)) return;
  ASSERTM(r.hasNulls() == (nulls || outer), "NULLs of the column or of the join");
  if (all) { ASSERTM(r.getIntMin() > r.getIntMax(), "no value"); return; }
  int64_t x = sym_i64("value");
  sym_assume(lo <= x && x <= hi);
  ASSERTM(in(r, x), "value of the column in the range");
  ASSERTM(r.getBucket() == 0 || (kind == 7 && r.getBucket() <= D), "dates are at least a day apart");
  auto rid = makeExpr<ColumnVar>(std::make_shared<ColumnInfo>(1, -4, 3, "rowid", ctx().int64(), true), 0);
  E()->outer = false;
  auto r2 = getExpressionRange(rid.get(), q, E());
  ASSERTM(in(r2, 0) && in(r2, rows - 1), "row numbers");
}
HARNESS(h_outer_join) {
  V a = value(0);
  E()->outer = sym_choose("outer join", 0, 1);
  int rte = sym_choose("inner side", 0, 1);
  auto r = rangeOf(col(ctx().int64(), 0, rte));
  sym_cover("outer join");
  ASSERTM(in(r, a.x) && r.hasNulls() == (a.nulls || (rte && E()->outer)), "the inner side of an outer join has NULLs");
}
