// @sources omniscidb/Utils/ExtractFromTime.cpp
// @bounds every second of every year from 292 billion BC to 292 billion AD (400-year cycles -730000000..730000000; years 1600..2399 cycle by cycle, all other cycles symbolically), each of the 400 years of a cycle on its own path, day of year and second of day symbolic
// @assume timestamps within 2^63 seconds of the epoch less one cycle
#include "cal.h"
#include "Utils/ExtractFromTime.h"
using F = hdk::ir::DateExtractField;
static int64_t X(F f, int64_t t) {
  int64_t v = ExtractFromTime(f, t);
  sym_observe(v);
  return v;
}
static int64_t at(const Date& a) { return a.day() * 86400 + sym_range64("second_of_day", 0, 86399); }
static void ymd(const Date& a) {
  int64_t t = at(a);
  sym_assert(X(F::kYear, t) == a.year(), "year");
  sym_assert(X(F::kMonth, t) == a.month(), "month");
  sym_assert(X(F::kDay, t) == a.mday(), "day");
  sym_assert(X(F::kDayOfYear, t) == a.doy + 1, "day of year");
  sym_assert(X(F::kQuarter, t) == (a.month() + 2) / 3, "quarter");
}
CAL_ENTRIES(ymd, ymd)
// 2000-01-01 was a Saturday and a cycle is a whole number of weeks
static int dow0(int k) { return (6 + daysBeforeYear(k)) % 7; }  // weekday of January 1 (Sunday = 0)
// first day of week 1 (the week, starting on weekday S, that contains January 4), relative to January 1
static int week1(int k, int S) {
  int d4 = (dow0(k) + 3) % 7;
  return 3 - (d4 - S + 7) % 7;
}
static int weekOf(const Date& a, int S) {
  int len = a.leap ? 366 : 365, prev = isLeap((a.k + 399) % 400) ? 366 : 365;
  int w0 = week1((a.k + 399) % 400, S) - prev, w1 = week1(a.k, S), w2 = week1((a.k + 1) % 400, S) + len;
  int base = a.doy >= w2 ? w2 : a.doy >= w1 ? w1 : w0;
  return (a.doy - base) / 7 + 1;
}
static void weeks(const Date& a) {
  int64_t t = at(a);
  int dow = (dow0(a.k) + a.doy) % 7;
  sym_assert(X(F::kDayOfWeek, t) == dow, "day of week, Sunday is 0");
  sym_assert(X(F::kIsoDayOfWeek, t) == (dow == 0 ? 7 : dow), "ISO day of week");
  sym_assert(X(F::kWeek, t) == weekOf(a, 1), "week starting Monday");
  sym_assert(X(F::kWeekSunday, t) == weekOf(a, 0), "week starting Sunday");
  sym_assert(X(F::kWeekSaturday, t) == weekOf(a, 6), "week starting Saturday");
}
CAL_ENTRIES(week, weeks)
HARNESS(h_time_of_day) {
  int64_t day = sym_range64("day", -106751991167299LL, 106751991167299LL);
  int h = sym_range("hour", 0, 23), m = sym_range("minute", 0, 59), s = sym_range("second", 0, 59);
  int64_t t = day * 86400 + h * 3600 + m * 60 + s;
  sym_assert(X(F::kHour, t) == h, "hour");
  sym_assert(X(F::kMinute, t) == m, "minute");
  sym_assert(X(F::kSecond, t) == s, "second");
  sym_assert(X(F::kQuarterDay, t) == h / 6 + 1, "quarter of day");
  sym_assert(X(F::kEpoch, t) == t, "epoch");
  sym_assert(X(F::kDateEpoch, t) == day * 86400, "date epoch");
  sym_cover("time of day");
}
// sub-second fields of a timestamp already expressed in that unit: position within the minute
HARNESS(h_subsecond) {
  static const int64_t per[] = {1000, 1000000, 1000000000};
  static const F fs[] = {F::kMilli, F::kMicro, F::kNano};
  int i = sym_choose("unit", 0, 2);
  int64_t lim = 153722867280LL / per[i] - 1;
  int64_t minute = sym_range64("minute", -lim, lim);
  int64_t frac = sym_range64("within", 0, 60 * per[i] - 1);
  sym_assert(X(fs[i], minute * 60 * per[i] + frac) == frac, "sub-second field");
  sym_cover("subsecond");
}
