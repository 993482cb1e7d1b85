// @sources omniscidb/QueryEngine/DateTruncate.cpp omniscidb/Utils/ExtractFromTime.cpp
// @bounds every second of every year from 292 billion BC to 292 billion AD, as for field extraction; the 2000-year millennium period is split into its 5 cycles
// @assume results are representable: timestamps within 2^63 seconds of the epoch less one millennium
#include "cal.h"
#include "Utils/ExtractFromTime.h"
#include "QueryEngine/DateTruncate.h"
using F = hdk::ir::DateTruncField;
extern "C" {
int64_t datetrunc_minute(int64_t); int64_t datetrunc_hour(int64_t); int64_t datetrunc_quarterday(int64_t);
int64_t datetrunc_day(int64_t); int64_t datetrunc_week_monday(int64_t); int64_t datetrunc_week_sunday(int64_t);
int64_t datetrunc_week_saturday(int64_t); int64_t datetrunc_month(int64_t); int64_t datetrunc_quarter(int64_t);
int64_t datetrunc_year(int64_t); int64_t datetrunc_decade(int64_t); int64_t datetrunc_century(int64_t);
int64_t datetrunc_millennium(int64_t);
int64_t DateTruncateHighPrecisionToDate(int64_t, int64_t);
int64_t DateTruncateHighPrecisionToDateNullable(int64_t, int64_t, int64_t);
int64_t TimestampToTimeUpscale(int64_t, int64_t, int64_t);
int64_t TimestampToTimeDownscale(int64_t, int64_t, int64_t);
int64_t TimestampToTimeUpscaleNullable(int64_t, int64_t, int64_t, int64_t, int64_t);
int64_t TimestampToTimeDownscaleNullable(int64_t, int64_t, int64_t, int64_t, int64_t);
}
// the compiled-query function and the interpreter entry point must both give e
static void ck(int64_t (*jit)(int64_t), F f, int64_t t, int64_t e, const char* msg) {
  int64_t v = jit(t);
  sym_observe(v);
  sym_assert(v == e, msg);
  sym_assert(DateTruncate(f, t) == e, msg);
}
static int64_t at(const Date& a) { return a.day() * 86400 + sym_range64("second_of_day", 0, 86399); }
// day number of January 1 of year 400 * a.e + k, for any k in [-400, 799]
static int64_t jan1k(const Date& a, int k) {
  int c = k < 0 ? -1 : k >= 400 ? 1 : 0;
  return a.e * kCycle + (kYear0 + c * kCycle + daysBeforeYear(k - 400 * c));
}
static void cal(const Date& a) {
  int64_t t = at(a);
  int m = a.month(), q = (m - 1) / 3 * 3 + 1;
  int bm = 0, bq = 0;
  for (int i = 2; i <= 12; ++i) {
    bm += m >= i ? monthLen(i - 1, a.leap) : 0;
    bq += q >= i ? monthLen(i - 1, a.leap) : 0;
  }
  ck(datetrunc_month, F::kMonth, t, (a.jan1() + bm) * 86400, "month");
  ck(datetrunc_quarter, F::kQuarter, t, (a.jan1() + bq) * 86400, "quarter");
  ck(datetrunc_year, F::kYear, t, a.jan1() * 86400, "year");
}
CAL_ENTRIES(cal, cal)
static void big(const Date& a) {
  int64_t t = at(a);
  ck(datetrunc_decade, F::kDecade, t, jan1k(a, a.k / 10 * 10) * 86400, "decade");
  int c = a.k == 0 ? -99 : (a.k - 1) / 100 * 100 + 1;
  ck(datetrunc_century, F::kCentury, t, jan1k(a, c) * 86400, "century");
}
CAL_ENTRIES(big, big)
// millennia: years 1000 n + 1; 2000 years are 5 cycles
static int64_t daysAny(int k) { int c = k < 0 ? -1 - (-k - 1) / 400 : k / 400; return c * kCycle + daysBeforeYear(k - 400 * c); }
static void mill(int g) {
  int64_t f = sym_range64("period", -145000000, 145000000);
  int k = sym_choose("year_in_cycle", 0, 399);
  int doy = sym_range("day_of_year", 0, isLeap(k) ? 365 : 364);
  int64_t s = sym_range64("second_of_day", 0, 86399);
  int y = 400 * g + k;  // year within the 2000-year period
  int y0 = y == 0 ? -999 : (y - 1) / 1000 * 1000 + 1;
  int64_t base = f * (5 * kCycle);
  int64_t t = (base + (kYear0 + daysAny(y)) + doy) * 86400 + s;
  ck(datetrunc_millennium, F::kMillennium, t, (base + (kYear0 + daysAny(y0))) * 86400, "millennium");
}
HARNESS(h_mill_0) { mill(0); }
HARNESS(h_mill_1) { mill(1); }
HARNESS(h_mill_2) { mill(2); }
HARNESS(h_mill_3) { mill(3); }
HARNESS(h_mill_4) { mill(4); }
// fixed-length units; day 0 was a Thursday
static void unit(int64_t len, int64_t off, int64_t (*jit)(int64_t), F f, const char* msg) {
  int64_t n = sym_range64("n", -(INT64_MAX / len - 2), INT64_MAX / len - 2), r = sym_range64("r", 0, len - 1);
  int64_t b = n * len + off;
  ck(jit, f, b + r, b, msg);
}
static int64_t same_(int64_t t) { return t; }
HARNESS(h_fixed) {
  switch (sym_choose("unit", 0, 10)) {
    case 0: unit(60, 0, datetrunc_minute, F::kMinute, "minute"); sym_cover("minute"); break;
    case 1: unit(3600, 0, datetrunc_hour, F::kHour, "hour"); break;
    case 2: unit(21600, 0, datetrunc_quarterday, F::kQuarterDay, "quarter day"); break;
    case 3: unit(86400, 0, datetrunc_day, F::kDay, "day"); break;
    case 4: unit(604800, 4 * 86400, datetrunc_week_monday, F::kWeek, "week from Monday"); break;
    case 5: unit(604800, 3 * 86400, datetrunc_week_sunday, F::kWeekSunday, "week from Sunday"); break;
    case 6: unit(604800, 2 * 86400, datetrunc_week_saturday, F::kWeekSaturday, "week from Saturday"); break;
    case 7: unit(1, 0, same_, F::kSecond, "second"); break;
    case 8: unit(1, 0, same_, F::kMilli, "millisecond"); break;
    case 9: unit(1, 0, same_, F::kMicro, "microsecond"); break;
    case 10: unit(1, 0, same_, F::kNano, "nanosecond"); sym_cover("nano"); break;
  }
}
// timestamp -> date and timestamp -> time of day
HARNESS(h_to_date_time) {
  static const int64_t per[] = {1000, 1000000, 1000000000};
  int64_t u = per[sym_choose("unit", 0, 2)];
  int64_t L = u * 86400;
  int64_t n = sym_range64("day", -(INT64_MAX / L - 2), INT64_MAX / L - 2), r = sym_range64("within", 0, L - 1);
  int64_t t = n * L + r;
  int64_t v = DateTruncateHighPrecisionToDate(t, u);
  sym_observe(v);
  sym_assert(v == n * 86400, "timestamp to date");
  sym_assert(DateTruncateHighPrecisionToDateNullable(t, u, INT64_MIN) == n * 86400, "nullable timestamp to date");
  sym_assert(DateTruncateHighPrecisionToDateNullable(INT64_MIN, u, INT64_MIN) == INT64_MIN, "NULL timestamp to date");
  sym_assert(truncate_high_precision_timestamp_to_date(t, u) == n * 86400, "timestamp to date (interpreter)");
  // time of day of a high precision timestamp, in seconds
  sym_assert(TimestampToTimeDownscale(t, u, u) == r / u, "timestamp to time");
  sym_assert(TimestampToTimeDownscaleNullable(t, u, u, INT64_MIN, -7) == r / u, "nullable timestamp to time");
  sym_assert(TimestampToTimeDownscaleNullable(INT64_MIN, u, u, INT64_MIN, -7) == -7, "NULL timestamp to time");
  // a timestamp in seconds to a time of day in the finer unit
  int64_t s = sym_range64("second_of_day", 0, 86399);
  int64_t ts = n * 86400 + s;
  sym_assert(TimestampToTimeUpscale(ts, u, u) == s * u, "upscaled time");
  sym_assert(TimestampToTimeUpscaleNullable(ts, u, u, INT64_MIN, -7) == s * u, "nullable upscaled time");
  sym_assert(TimestampToTimeUpscaleNullable(INT64_MIN, u, u, INT64_MIN, -7) == -7, "NULL upscaled time");
  sym_cover("to date");
}
