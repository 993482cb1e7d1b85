// @sources omniscidb/IR/Expr.cpp omniscidb/IR/Type.cpp omniscidb/IR/Context.cpp omniscidb/IR/Datum.cpp omniscidb/Shared/misc.cpp omniscidb/Shared/DateTimeParser.cpp omniscidb/Shared/StringTransform.cpp omniscidb/QueryEngine/DateTimeTranslator.cpp
// @flags -iquote $VERIF/stubs/rel -I$VERIF/stubs/boostpred -include $VERIF/stubs/Logger/Logger.h
// @bounds EXTRACT and DATE_TRUNC of every constant of every precision, every field
// @assume ExtractFromTime and DateTruncate replaced by injective stand-ins (C12 and C13 decide what they compute)
#include "IR/Context.h"
#include "IR/Expr.h"
#include "QueryEngine/DateTimeTranslator.h"
#include "sym.h"
using namespace hdk::ir;
static Context& ctx() { return Context::defaultCtx(); }
static int64_t pow10i(int s) { int64_t p = 1; for (int i = 0; i < s; i++) p *= 10; return p; }
static int64_t perSecond(int u) { return pow10i(3 * u); }
static const TimeUnit units[] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
static auto K(const Type* t, Datum d) { return makeExpr<Constant>(t, false, d); }
// what the run-time functions do to a timestamp in seconds is a matter for C12 and C13: here, anything
// that tells apart the timestamps and the fields. Fields below a second: the position in the minute.
int64_t ExtractFromTime(DateExtractField f, const int64_t t) {
  int64_t per = f == DateExtractField::kMilli ? 60000LL : f == DateExtractField::kMicro ? 60000000LL : f == DateExtractField::kNano ? 60000000000LL : 0;
  if (per) return (t % per + per) % per;
  if (f == DateExtractField::kEpoch) return t;
  return t + ((int64_t)f + 1) * 1000000000000000LL;
}
int64_t DateTruncate(DateTruncField f, const int64_t t) {
  if (f == DateTruncField::kMilli || f == DateTruncField::kMicro || f == DateTruncField::kNano || f == DateTruncField::kSecond) return t;
  return t + ((int64_t)f + 1) * 100;
}
int64_t truncate_high_precision_timestamp_to_date(const int64_t t, const int64_t) { return t; }
// EXTRACT and DATE_TRUNC of a constant against the functions that queries over columns call
static const DateExtractField efs[] = {DateExtractField::kYear, DateExtractField::kQuarter, DateExtractField::kMonth, DateExtractField::kDay, DateExtractField::kHour, DateExtractField::kMinute, DateExtractField::kSecond, DateExtractField::kDayOfWeek, DateExtractField::kIsoDayOfWeek, DateExtractField::kDayOfYear, DateExtractField::kEpoch, DateExtractField::kQuarterDay, DateExtractField::kWeek, DateExtractField::kWeekSunday, DateExtractField::kWeekSaturday, DateExtractField::kDateEpoch};
HARNESS(h_extract) {
  int a = sym_choose("unit", 0, 3);
  auto f = efs[sym_choose("field", 0, 15)];
  int64_t lim = INT64_MAX / perSecond(a) - 1;
  if (lim > 100000000000000LL) lim = 100000000000000LL;
  int64_t sec = sym_range64("second", -lim, lim), sub = sym_range64("subsecond", 0, perSecond(a) - 1);
  Datum d{0};
  d.bigintval = sec * perSecond(a) + sub;
  auto c = K(ctx().timestamp(units[a]), d);
  auto r = ::ExtractExpr::generate(c, f);
  auto k = dynamic_cast<const Constant*>(r.get());
  ASSERTM(k && !k->isNull() && k->value().bigintval == ExtractFromTime(f, sec), "EXTRACT of a constant is EXTRACT of its second");
  sym_cover("extract");
}
HARNESS(h_extract_subsecond) {
  static const DateExtractField sf[] = {DateExtractField::kMilli, DateExtractField::kMicro, DateExtractField::kNano};
  int a = sym_choose("unit", 0, 3), f = sym_choose("field", 1, 3);
  int64_t lim = INT64_MAX / perSecond(3) - 1;
  int64_t sec = sym_range64("second", -lim, lim), sub = sym_range64("subsecond", 0, perSecond(a) - 1);
  Datum d{0};
  d.bigintval = sec * perSecond(a) + sub;
  auto c = K(ctx().timestamp(units[a]), d);
  auto r = ::ExtractExpr::generate(c, sf[f - 1]);
  auto k = dynamic_cast<const Constant*>(r.get());
  int64_t frac = f >= a ? sub * perSecond(f - a) : sub / perSecond(a - f);
  int64_t inMinute = (sec % 60 + 60) % 60;
  ASSERTM(k && k->value().bigintval == inMinute * perSecond(f) + frac, "the seconds within the minute, in the unit asked for");
  sym_cover("extract subsecond");
}
static const DateTruncField tfs[] = {DateTruncField::kYear, DateTruncField::kQuarter, DateTruncField::kMonth, DateTruncField::kDay, DateTruncField::kHour, DateTruncField::kMinute, DateTruncField::kSecond, DateTruncField::kMillennium, DateTruncField::kCentury, DateTruncField::kDecade, DateTruncField::kQuarterDay, DateTruncField::kWeek, DateTruncField::kWeekSunday, DateTruncField::kWeekSaturday};
HARNESS(h_trunc) {
  int a = sym_choose("unit", 0, 3);
  auto f = tfs[sym_choose("field", 0, 13)];
  int64_t lim = 9000000000LL;
  int64_t sec = sym_range64("second", -lim, lim), sub = sym_range64("subsecond", 0, perSecond(a) - 1);
  Datum d{0};
  d.bigintval = sec * perSecond(a) + sub;
  auto c = K(ctx().timestamp(units[a]), d);
  auto r = ::DateTruncExpr::generate(c, f);
  auto k = dynamic_cast<const Constant*>(r.get());
  ASSERTM(k && k->value().bigintval == DateTruncate(f, sec) * perSecond(a), "DATE_TRUNC of a constant is DATE_TRUNC of its second");
  sym_cover("trunc");
}
HARNESS(h_trunc_subsecond) {
  static const DateTruncField sf[] = {DateTruncField::kSecond, DateTruncField::kMilli, DateTruncField::kMicro, DateTruncField::kNano};
  int a = sym_choose("unit", 0, 3), f = sym_choose("field", 0, 3);
  int64_t lim = INT64_MAX / perSecond(a) - 1;
  int64_t sec = sym_range64("second", -lim, lim), sub = sym_range64("subsecond", 0, perSecond(a) - 1);
  Datum d{0};
  d.bigintval = sec * perSecond(a) + sub;
  auto c = K(ctx().timestamp(units[a]), d);
  auto r = ::DateTruncExpr::generate(c, sf[f]);
  auto k = dynamic_cast<const Constant*>(r.get());
  int64_t step = f >= a ? 1 : perSecond(a - f);
  ASSERTM(k && k->value().bigintval == sec * perSecond(a) + sub / step * step, "fractions below the unit are cut off towards the past");
  sym_cover("trunc subsecond");
}
