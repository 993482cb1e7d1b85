// @sources omniscidb/IR/Expr.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp omniscidb/QueryEngine/DateTruncate.cpp
// @flags -iquote $VERIF/stubs/rel -I$VERIF/stubs/boostpred -include $VERIF/stubs/Logger/Logger.h
// @bounds every value of every source type (integers of 1, 2, 4, 8 bytes, boolean, decimals of scale 0..18, float, double, timestamps of every precision) cast to every numeric or timestamp type (decimals of scale 0..18); arrays of 2; strings of up to 4 characters
// @assume values are not the NULL sentinel; floating-point values are not NaN
#include "IR/Context.h"
#include "IR/Expr.h"
#include "sym.h"
#include <cmath>
using namespace hdk::ir;
static Context& ctx() { return Context::defaultCtx(); }
using I = __int128;
static I pow10i(int s) { I p = 1; for (int i = 0; i < s; i++) p *= 10; return p; }
static const Type* intT(int i, bool nullable = true) { return ctx().integer(1 << i, nullable); }
static I lowest(int i) { return -((I)1 << ((8 << i) - 1)); }
static I highest(int i) { return -lowest(i) - 1; }
static Datum intD(int i, const char* n, int64_t& v) {
  Datum d{0};
  if (i == 0) { d.tinyintval = sym_i8(n); v = d.tinyintval; }
  else if (i == 1) { d.smallintval = sym_i16(n); v = d.smallintval; }
  else if (i == 2) { d.intval = sym_i32(n); v = d.intval; }
  else { d.bigintval = sym_i64(n); v = d.bigintval; }
  sym_assume(v != (int64_t)lowest(i));
  return d;
}
// the result of the cast, or nothing if it was rejected
struct Res {
  ExprPtr e;
  const Constant* c = nullptr;
};
static Res castTo(const Expr& c, const Type* t) {
  Res r;
  try {
    r.e = c.cast(t);
    r.c = dynamic_cast<const Constant*>(r.e.get());
    ASSERTM(r.c != nullptr, "a constant casts to a constant");
    ASSERTM(r.c->type()->id() == t->id() && r.c->type()->size() == t->size() && !r.c->isNull(), "of the type asked for, not NULL");
  } catch (std::exception&) {
    r.c = nullptr;
  }
  return r;
}
static void exact(const Res& r, I want, I lo, I hi, const char* msg) {
  bool fits = want >= lo && want <= hi;
  ASSERTM((r.c != nullptr) == fits, "a cast is rejected exactly when the value does not fit");
  if (r.c) ASSERTM(r.c->intVal() == (int64_t)want, msg);
}
static void exact64(const Res& r, int64_t want, int64_t lo, int64_t hi, const char* msg) {
  bool fits = want >= lo && want <= hi;
  ASSERTM((r.c != nullptr) == fits, "a cast is rejected exactly when the value does not fit");
  if (r.c) ASSERTM(r.c->intVal() == want, msg);
}
static auto K(const Type* t, Datum d) { return makeExpr<Constant>(t, false, d); }
HARNESS(h_int_int) {
  int a = sym_choose("from", 0, 3), b = sym_choose("to", 0, 3);
  int64_t v;
  Datum d = intD(a, "v", v);
  auto c = K(intT(a), d);
  exact(castTo(*c, intT(b)), v, lowest(b), highest(b), "the value is kept");
  sym_cover("integer to integer");
}
HARNESS(h_bool) {
  Datum d{0};
  d.boolval = sym_bool("b");
  int64_t v = d.boolval;
  auto c = K(ctx().boolean(), d);
  int b = sym_choose("to", 0, 5);
  if (b <= 3) exact(castTo(*c, intT(b)), v, lowest(b), highest(b), "TRUE is 1");
  else if (b == 4) exact(castTo(*c, ctx().decimal64(18, 4)), v * 10000, lowest(3), highest(3), "TRUE is 1.0000");
  else { auto r = castTo(*c, ctx().fp64()); ASSERTM(r.c && r.c->fpVal() == (double)v, "TRUE is 1.0"); }
  sym_cover("boolean");
}

HARNESS(h_int_decimal) {
  int a = sym_choose("from", 0, 3), s = sym_choose("scale", 0, 18);
  int64_t v;
  Datum d = intD(a, "v", v);
  auto c = K(intT(a), d);
  exact(castTo(*c, ctx().decimal64(19, s)), (I)v * pow10i(s), lowest(3), highest(3), "the value is kept");
  sym_cover("integer to decimal");
}
// any decimal, as its whole part, the digits cut off and its sign
struct Dec {
  int64_t v, q, r;
};
static Dec dec(int digits) {
  int64_t p = (int64_t)pow10i(digits);
  Dec d;
  d.q = sym_range64("whole", 0, INT64_MAX / p);
  d.r = sym_range64("rest", 0, p - 1);
  sym_assume((d.q < INT64_MAX / p) | (d.r <= INT64_MAX % p));
  d.v = d.q * p + d.r;
  d.q += d.r >= p - p / 2 && digits;
  if (sym_choose("negative", 0, 1)) d.v = -d.v, d.q = -d.q;
  return d;
}
HARNESS(h_decimal_int) {
  int s = sym_choose("scale", 0, 18), b = sym_choose("to", 0, 3);
  Dec x = dec(s);
  Datum d{0};
  d.bigintval = x.v;
  auto c = K(ctx().decimal64(19, s), d);
  exact64(castTo(*c, intT(b)), x.q, (int64_t)lowest(b), (int64_t)highest(b), "rounded half away from zero");
  sym_cover("decimal to integer");
}
HARNESS(h_decimal_narrow) {
  int s = sym_choose("scale", 1, 18), t = sym_choose("to_scale", 0, 17);
  sym_assume(t < s);
  Dec x = dec(s - t);
  Datum d{0};
  d.bigintval = x.v;
  auto c = K(ctx().decimal64(19, s), d);
  exact64(castTo(*c, ctx().decimal64(19, t)), x.q, INT64_MIN, INT64_MAX, "rounded half away from zero");
  sym_cover("decimal to smaller scale");
}
HARNESS(h_decimal_widen) {
  int s = sym_choose("scale", 0, 18), t = sym_choose("to_scale", 0, 18);
  sym_assume(t >= s);
  Datum d{0};
  int64_t v = d.bigintval = sym_i64("v");
  sym_assume(v != INT64_MIN);
  auto c = K(ctx().decimal64(19, s), d);
  int64_t p = (int64_t)pow10i(t - s);
  auto r = castTo(*c, ctx().decimal64(19, t));
  bool fits = v <= INT64_MAX / p && v >= -(INT64_MAX / p);
  ASSERTM((r.c != nullptr) == fits, "a cast is rejected exactly when the value does not fit");
  if (fits) ASSERTM(r.c->intVal() == v * p, "the value is kept");
  sym_cover("decimal to larger scale");
}
HARNESS(h_fp_int) {
  bool dbl = sym_choose("double", 0, 1);
  int b = sym_choose("to", 0, 3);
  Datum d{0};
  double v;
  if (dbl) v = d.doubleval = sym_f64("v");
  else v = d.floatval = sym_f32("v");
  sym_assume(v == v);
  auto c = K(dbl ? ctx().fp64() : ctx().fp32(), d);
  auto r = castTo(*c, intT(b));
  // the value rounded half away from zero fits when it is strictly between lowest-1/2 and highest+1/2
  double n = std::round(v);
  double top = (double)(1ULL << ((8 << b) - 1));
  bool fits = n >= -top && n < top;
  ASSERTM((r.c != nullptr) == fits, "a cast is rejected exactly when the value does not fit");
  if (r.c) {
    ASSERTM((double)r.c->intVal() == n, "rounded half away from zero");
    sym_cover("in range");
  } else {
    sym_cover("out of range");
  }
}
HARNESS(h_to_fp) {
  int k = sym_choose("from", 0, 4);
  bool dbl = sym_choose("double", 0, 1);
  auto t = dbl ? ctx().fp64() : ctx().fp32();
  int64_t v;
  if (k <= 3) {
    Datum d = intD(k, "v", v);
    auto c = K(intT(k), d);
    auto r = castTo(*c, t);
    ASSERTM(r.c && (dbl ? r.c->value().doubleval == (double)v : r.c->value().floatval == (float)v), "nearest floating-point number");
  } else {
    int s = sym_choose("scale", 0, 18);
    double p = 1;
    for (int i = 0; i < s; i++) p *= 10;  // exact up to 10^22
    Datum d{0};
    v = d.bigintval = sym_i64("v");
    sym_assume(v != INT64_MIN);
    auto c = K(ctx().decimal64(19, s), d);
    auto r = castTo(*c, t);
    // a float is within one unit in the last place
    ASSERTM(r.c != nullptr, "accepted");
    if (dbl) ASSERTM(r.c->value().doubleval == (double)v / p, "nearest floating-point number");
    else ASSERTM(r.c->value().floatval == (float)((double)(float)v / p), "nearest floating-point number");
  }
  sym_cover("to floating point");
}
HARNESS(h_fp_fp) {
  Datum d{0};
  bool up = sym_choose("widen", 0, 1);
  if (up) d.floatval = sym_f32("v"); else d.doubleval = sym_f64("v");
  double v = up ? d.floatval : d.doubleval;
  sym_assume(v == v);
  auto c = K(up ? ctx().fp32() : ctx().fp64(), d);
  auto r = castTo(*c, up ? ctx().fp64() : ctx().fp32());
  ASSERTM(r.c != nullptr, "accepted");
  if (up) ASSERTM(r.c->value().doubleval == v, "kept");
  else ASSERTM(r.c->value().floatval == (float)v, "nearest");
  sym_cover("fp to fp");
}
// timestamps
static const TimeUnit units[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
static I perSecond(int u) { return pow10i(3 * u); }
HARNESS(h_timestamp_finer) {
  int a = sym_choose("from", 0, 3), b = sym_choose("to", 0, 3);
  sym_assume(b >= a);
  Datum d{0};
  int64_t v = d.bigintval = sym_i64("v");
  sym_assume(v != INT64_MIN);
  auto c = K(ctx().timestamp(units[a]), d);
  exact(castTo(*c, ctx().timestamp(units[b])), (I)v * perSecond(b - a), lowest(3), highest(3), "the same instant");
  sym_cover("timestamp to finer timestamp");
}
HARNESS(h_timestamp_coarser) {
  int a = sym_choose("from", 0, 3), b = sym_choose("to", 0, 3);
  sym_assume(b < a);
  int64_t p = (int64_t)perSecond(a - b);
  int64_t q = sym_range64("whole", INT64_MIN / p, INT64_MAX / p - 1), r = sym_range64("rest", 0, p - 1);
  Datum d{0};
  d.bigintval = q * p + r;
  auto c = K(ctx().timestamp(units[a]), d);
  exact64(castTo(*c, ctx().timestamp(units[b])), q, INT64_MIN, INT64_MAX, "fractions cut off towards the past");
  sym_cover("timestamp to coarser timestamp");
}
HARNESS(h_timestamp_date) {
  int a = sym_choose("from", 0, 3);
  int64_t lim = (int64_t)(highest(3) / (86400 * perSecond(a))) - 2;
  int64_t day = sym_range64("day", -lim, lim);
  int64_t tod = sym_range64("time_of_day", 0, (int64_t)(86400 * perSecond(a)) - 1);
  Datum d{0};
  d.bigintval = day * (int64_t)(86400 * perSecond(a)) + tod;
  auto c = K(ctx().timestamp(units[a]), d);
  auto r = castTo(*c, ctx().date64(TimeUnit::kSecond));
  ASSERTM(r.c && r.c->value().bigintval == day * 86400, "the day of the timestamp, in seconds");
  sym_cover("timestamp to date");
}
HARNESS(h_date_timestamp) {
  bool days = sym_choose("unit_is_day", 0, 1);
  int b = sym_choose("to", 0, 3);
  Datum d{0};
  int64_t v = d.bigintval = sym_i64("v");
  sym_assume(v != INT64_MIN);
  auto c = K(days ? ctx().date32(TimeUnit::kDay) : ctx().date64(TimeUnit::kSecond), d);
  exact(castTo(*c, ctx().timestamp(units[b])), (I)v * (days ? 86400 : 1) * perSecond(b), lowest(3), highest(3), "midnight of the day");
  sym_cover("date to timestamp");
}
HARNESS(h_timestamp_number) {
  int a = sym_choose("unit", 0, 3), b = sym_choose("to", 0, 3);
  Datum d{0};
  int64_t v = d.bigintval = sym_i64("v");
  sym_assume(v != INT64_MIN);
  auto c = K(ctx().timestamp(units[a]), d);
  exact(castTo(*c, intT(b)), v, lowest(b), highest(b), "the epoch");
  int64_t w;
  Datum e = intD(b, "w", w);
  auto k = K(intT(b), e);
  exact(castTo(*k, ctx().timestamp(units[a])), w, lowest(3), highest(3), "the number as an epoch");
  sym_cover("timestamp and number");
}
// NULL
static bool isSentinel(const Constant& c) {
  Datum v = c.value();
  auto t = c.type();
  switch (t->id()) {
    case Type::kBoolean: return v.tinyintval == 1 || v.tinyintval == INT8_MIN;
    case Type::kInteger:
    case Type::kDecimal:
      return t->size() == 1 ? v.tinyintval == INT8_MIN : t->size() == 2 ? v.smallintval == INT16_MIN : t->size() == 4 ? v.intval == INT32_MIN : v.bigintval == INT64_MIN;
    case Type::kFloatingPoint:
      return t->size() == 4 ? v.floatval == 1.17549435e-38f : v.doubleval == 2.2250738585072014e-308;
    case Type::kTimestamp:
    case Type::kDate:
    case Type::kTime: return v.bigintval == INT64_MIN;
    default: return v.stringval == nullptr;
  }
}
static const Type* anyT(int i) {
  switch (i) {
    case 0: case 1: case 2: case 3: return intT(i);
    case 4: return ctx().decimal64(18, 3);
    case 5: return ctx().fp32();
    case 6: return ctx().fp64();
    case 7: return ctx().timestamp(TimeUnit::kSecond);
    case 8: return ctx().timestamp(TimeUnit::kNano);
    case 9: return ctx().date64(TimeUnit::kSecond);
    case 10: return ctx().text();
    case 11: return ctx().varChar(4);
    default: return ctx().boolean();
  }
}
HARNESS(h_null) {
  int a = sym_choose("from", 0, 12), b = sym_choose("to", 0, 12);
  Datum d{0};
  d.bigintval = sym_i64("v");
  auto c = makeExpr<Constant>(anyT(a), true, d);
  auto k = dynamic_cast<const Constant*>(c.get());
  ASSERTM(k->isNull() && isSentinel(*k), "a NULL constant holds the sentinel of its type");
  auto r = c->cast(anyT(b));
  auto q = dynamic_cast<const Constant*>(r.get());
  ASSERTM(q && q->isNull() && q->type()->id() == anyT(b)->id() && isSentinel(*q), "NULL casts to NULL");
  sym_cover("null");
}
HARNESS(h_array) {
  int a = sym_choose("from", 0, 3), b = sym_choose("to", 0, 3);
  int64_t v[2];
  ExprPtrList l;
  l.push_back(K(intT(a), intD(a, "v", v[0])));
  l.push_back(K(intT(a), intD(a, "v", v[1])));
  auto c = makeExpr<Constant>(ctx().arrayVarLen(intT(a)), false, l);
  ExprPtr r;
  try {
    r = c->cast(ctx().arrayVarLen(intT(b)));
  } catch (std::exception&) {
  }
  bool fits = true;
  for (int i = 0; i < 2; i++) fits &= v[i] >= lowest(b) && v[i] <= highest(b);
  ASSERTM((r != nullptr) == fits, "rejected exactly when an element does not fit");
  if (r) {
    auto& w = dynamic_cast<const Constant&>(*r).valueList();
    ASSERTM(w.size() == 2, "as many elements");
    int i = 0;
    for (auto& x : w) ASSERTM(dynamic_cast<const Constant&>(*x).intVal() == v[i++], "the elements are kept in order");
    sym_cover("array");
  }
}
HARNESS(h_varchar) {
  int n = sym_choose("length", 0, 4), m = sym_choose("max", 1, 4);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)sym_u8("c"));
  Datum d{0};
  d.stringval = new std::string(s);
  auto c = K(ctx().text(), d);
  auto r = castTo(*c, ctx().varChar(m));
  ASSERTM(r.c && r.c->value().stringval->size() == (size_t)(n < m ? n : m), "cut to the length of the type");
  for (size_t i = 0; i < r.c->value().stringval->size(); i++) ASSERTM((*r.c->value().stringval)[i] == s[i], "the beginning is kept");
  auto b = castTo(*r.e, ctx().text());
  ASSERTM(b.c && *b.c->value().stringval == *r.c->value().stringval, "and back");
  sym_cover("varchar");
}
