// @sources omniscidb/Shared/DateTimeParser.cpp
// @flags -I$VERIF/stubs/boostpred
// @bounds every value of every digit: dates in all six written forms, years 0-9999 (two-digit years 0-99), month and day with one or two digits, every month name in full or abbreviated in every combination of upper and lower case; times in all seven written forms with any am/pm spelling; fractions of 1-9 digits; zone offsets with and without colon; seconds, milli-, micro- and nanosecond results; whole numbers of up to 10 digits
// @assume nanosecond results: years 1700-2200, so that the result fits 64 bits; text is ASCII
#include "Shared/DateTimeParser.h"
#include "cal.h"
using hdk::ir::TimeUnit;
using hdk::ir::Type;
using Opt = std::optional<int64_t>;
static Opt parseDate(std::string_view s, TimeUnit u) { return dateTimeParseOptional<Type::kDate>(s, u); }
static Opt parseTime(std::string_view s, TimeUnit u) { return dateTimeParseOptional<Type::kTime>(s, u); }
static Opt parseTs(std::string_view s, TimeUnit u) { return dateTimeParseOptional<Type::kTimestamp>(s, u); }
// text under construction
struct Text {
  char b[64];
  int n = 0;
  void lit(const char* s) { while (*s) b[n++] = *s++; }
  // a number of exactly w digits, each digit any
  int64_t num(int w, const char* name) {
    int64_t v = 0;
    for (int i = 0; i < w; ++i) {
      int d = sym_range(name, 0, 9);
      b[n++] = (char)('0' + d);
      v = v * 10 + d;
    }
    return v;
  }
  // the letters in lower or upper case, any mixture
  void word(const char* s) {
    for (; *s; ++s) b[n++] = (char)(sym_bool("upper") ? *s - 32 : *s);
  }
  void spaces(int k) { while (k-- > 0) b[n++] = ' '; }
  std::string_view view() const { return {b, (size_t)n}; }
};
static int64_t daysBefore(int64_t y) {  // days from January 1 of year 0 to January 1 of year y, 0 <= y
  int64_t p = y + 399;                  // years -399 .. y-1
  return 365 * y + (p / 4 - p / 100 + p / 400) - (99 - 3 + 0) ;
}
static int64_t dayNo(int64_t y, int m, int64_t d) {
  bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
  int64_t b = 0;
  for (int i = 1; i < m; ++i) b += kMonthLen[i];
  if (m > 2) b += leap;
  return kYear0 + daysBefore(y) + b + (d - 1);
}
static const char* kMon[13] = {"", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
static const char* kMonFull[13] = {"", "january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
struct D { int64_t y; int m; int64_t d; };
static bool validDay(int64_t y, int m, int64_t d) {
  bool leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
  return (d >= 1) & (d <= kMonthLen[m] + ((m == 2) & leap));
}
static int month(Text& t, bool two) {
  int m = sym_choose("month", 1, 12);
  if (m < 10 && (two || sym_choose("short_month", 0, 1) == 0)) t.lit("0");
  if (m >= 10) t.lit("1");
  char c[2] = {(char)('0' + m % 10), 0};
  t.lit(c);
  return m;
}
static int64_t day(Text& t, bool two) { return t.num(two ? 2 : sym_choose("day_digits", 1, 2), "day"); }
static int64_t year2(int64_t v) { return v < 69 ? 2000 + v : 1900 + v; }
enum { YMD_DASH, MDY2, MDY4, YMD_SLASH, DBY2, DBY4 };
// full: month names written out; two: days and months with two digits only
static D date(Text& t, int form, int full, bool two = false) {
  D r;
  switch (form) {
    case YMD_DASH: r.y = t.num(4, "year"); t.lit("-"); r.m = month(t, two); t.lit("-"); r.d = day(t, two); break;
    case YMD_SLASH: r.y = t.num(4, "year"); sym_assume(r.y > 12); t.lit("/"); r.m = month(t, two); t.lit("/"); r.d = day(t, two); break;
    case MDY2: r.m = month(t, two); t.lit("/"); r.d = day(t, two); t.lit("/"); r.y = year2(t.num(2, "year")); break;
    case MDY4: r.m = month(t, two); t.lit("/"); r.d = day(t, two); t.lit("/"); r.y = t.num(4, "year"); sym_assume(r.y > 99); break;
    default:
      r.d = day(t, two);
      t.lit(form == DBY2 ? "-" : "/");
      r.m = sym_choose("month", 1, 12);
      t.word(full ? kMonFull[r.m] : kMon[r.m]);
      t.lit(form == DBY2 ? "-" : "/");
      r.y = form == DBY2 ? year2(t.num(2, "year")) : t.num(4, "year");
  }
  sym_assume(validDay(r.y, r.m, r.d));
  return r;
}
static const TimeUnit kU[4] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
static const int64_t kS[4] = {1, 1000, 1000000, 1000000000};
static int unit(const D& d) {
  int u = sym_choose("unit", 0, 3);
  if (u == 3) sym_assume((d.y >= 1700) & (d.y <= 2200));
  return u;
}
static void dateForm(int form, int full = 0) {
  Text t;
  D d = date(t, form, full);
  int u = unit(d);
  Opt r = parseDate(t.view(), kU[u]);
  ASSERTM((bool)r, "a well-formed date is accepted");
  ASSERTM(*r == dayNo(d.y, d.m, d.d) * 86400 * kS[u], "a date's number of seconds is that of its midnight");
  sym_cover("date parsed");
}
HARNESS(h_date_ymd_dash) { dateForm(YMD_DASH); }
HARNESS(h_date_ymd_slash) { dateForm(YMD_SLASH); }
HARNESS(h_date_mdy2) { dateForm(MDY2); }
HARNESS(h_date_mdy4) { dateForm(MDY4); }
HARNESS(h_date_dby2) { dateForm(DBY2); }
HARNESS(h_date_dby4) { dateForm(DBY4); }
HARNESS(h_date_dby2_full) { dateForm(DBY2, 1); }
HARNESS(h_date_dby4_full) { dateForm(DBY4, 1); }
// ---- times
struct T { int64_t h, m, s, ns; };  // 24-hour clock
enum { IMSP, HMS, IMP, HM, HHMMSS, DOTS, IP };
static bool half(Text& t, int sp, bool few) {  // am or pm, in one of its spellings
  bool pm = sym_choose("pm", 0, 1), dots = few ? pm : sym_choose("dots", 0, 1);
  t.spaces(sp);
  int caps = few ? 3 * dots : sym_choose("capitals", 0, 3);
  t.lit(pm ? (caps & 1 ? "P" : "p") : (caps & 1 ? "A" : "a"));
  if (dots) t.lit(".");
  t.lit(caps & 2 ? "M" : "m");
  if (dots) t.lit(".");
  return pm;
}
static int64_t fraction(Text& t, int digits) {
  if (!digits) return 0;
  t.lit(".");
  int64_t v = t.num(digits, "fraction");
  for (int i = digits; i < 9; ++i) v *= 10;
  return v;
}
static T time_(Text& t, int form, int fdigits, bool two = false) {
  T r{0, 0, 0, 0};
  bool twelve = form == IMSP || form == IMP || form == DOTS || form == IP;
  int64_t h = t.num(form == HHMMSS || two ? 2 : sym_choose("hour_digits", 1, 2), "hour");
  if (twelve) sym_assume((h >= 1) & (h <= 12)); else sym_assume(h <= 23);
  if (twelve && h == 12) h = 12;  // one path for 12 o'clock, one for the rest
  const char* sep = form == HHMMSS ? "" : form == DOTS ? (sym_choose("spaced", 0, 1) ? " . " : ".") : ":";
  if (form != IP) { t.lit(sep); r.m = t.num(2, "minute"); sym_assume(r.m <= 59); }
  if (form == IMSP || form == HMS || form == HHMMSS || form == DOTS) {
    t.lit(sep);
    r.s = t.num(2, "second");
    sym_assume(r.s <= 59);
    r.ns = fraction(t, fdigits);
  }
  if (twelve) { bool pm = half(t, sym_choose("space", 0, 1), two); r.h = (h == 12 ? 0 : h) + (pm ? 12 : 0); }
  else r.h = h;
  return r;
}
static int64_t zone(Text& t, int kind) {  // seconds east of Greenwich
  if (!kind) return 0;
  bool west = sym_choose("west", 0, 1);
  t.lit(west ? "-" : "+");
  int64_t h = t.num(2, "zone_hour");
  if (kind == 2) t.lit(":");
  int64_t m = t.num(2, "zone_minute");
  int64_t s = h * 3600 + m * 60;
  return west ? -s : s;
}
static int64_t secs(const T& c) { return c.h * 3600 + c.m * 60 + c.s; }
// q == ns / (1e9 / scale), stated without dividing
static bool isScaled(int64_t whole, int64_t ns, int u, int64_t r) {
  int64_t f = r - whole * kS[u], step = 1000000000 / kS[u];
  return (f >= 0) & (f < kS[u]) & (f * step <= ns) & (ns < f * step + step);
}
static void timeForm(int form, int zkinds) {
  Text t;
  bool sec = form == IMSP || form == HMS || form == HHMMSS || form == DOTS;
  int fd = sec ? sym_choose("fraction_digits", 0, 9) : 0;
  if (sym_choose("leading_T", 0, 1)) t.lit("T");
  T c = time_(t, form, fd);
  int64_t z = zone(t, zkinds ? sym_choose("zone", 0, 2) : 0);
  int u = sym_choose("unit", 0, 3);
  Opt r = parseTime(t.view(), kU[u]);
  ASSERTM((bool)r, "a well-formed time is accepted");
  ASSERTM(isScaled(secs(c) - z, c.ns, u, *r), "a time of day is its hours, minutes, seconds and fraction, less the zone offset");
  sym_cover("time parsed");
}
HARNESS(h_time_imsp) { timeForm(IMSP, 0); }
HARNESS(h_time_hms) { timeForm(HMS, 1); }
HARNESS(h_time_imp) { timeForm(IMP, 1); }
HARNESS(h_time_hm) { timeForm(HM, 1); }
HARNESS(h_time_hhmmss) { timeForm(HHMMSS, 1); }
HARNESS(h_time_dots) { timeForm(DOTS, 0); }
HARNESS(h_time_ip) { timeForm(IP, 1); }
// ---- timestamps: the date's midnight plus the time of day
static void ts(int form, int tform) {
  Text t;
  D d = date(t, form, 0, true);
  size_t dateLen = t.n;
  static const char* sep[] = {" ", "T", ":"};
#ifdef THOROUGH
  int s = sym_choose("separator", 0, 2), zk = sym_choose("zone", 0, 2);
#else
  int s = sym_choose("separator", 0, 2), zk = s;
#endif
  t.lit(sep[s]);
  bool sec = tform == HMS || tform == IMSP;
  int fd = sec ? 3 * sym_choose("fraction_thirds", 0, 3) : 0;
  T c = time_(t, tform, fd, true);
  int64_t z = zone(t, zk);
  int u = fd == 0 ? 0 : fd / 3;
  if (u == 3) sym_assume((d.y >= 1700) & (d.y <= 2200));
  Opt r = parseTs(t.view(), kU[u]);
  ASSERTM((bool)r, "a well-formed timestamp is accepted");
  Opt midnight = parseDate({t.b, dateLen}, kU[u]);  // its value: h_date_*
  ASSERTM((bool)midnight, "the date alone is accepted");
  ASSERTM(isScaled(secs(c) - z, c.ns, u, *r - *midnight), "a timestamp is its date's midnight plus its time of day, less the zone offset");
  sym_cover("timestamp parsed");
}
HARNESS(h_ts_ymd_hms) { ts(YMD_DASH, HMS); }
HARNESS(h_ts_ymd_hm) { ts(YMD_DASH, HM); }
HARNESS(h_ts_mdy4_imsp) { ts(MDY4, IMSP); }
HARNESS(h_ts_dby2_hms) { ts(DBY2, HMS); }
HARNESS(h_ts_mdy2_hhmmss) { ts(MDY2, HHMMSS); }
HARNESS(h_ts_slash_imp) { ts(YMD_SLASH, IMP); }
// ---- whole numbers are seconds (or the unit's ticks) since the epoch
static void whole(bool isDate) {
  Text t;
  bool neg = sym_choose("negative", 0, 1);
  if (neg) t.lit("-");
  int64_t v = t.num(sym_choose("digits", 1, 10), "digit");
  if (sym_choose("point", 0, 1)) { t.lit("."); t.num(sym_choose("after", 0, 2), "digit"); }
  int u = sym_choose("unit", 0, 3);
  Opt r = isDate ? parseDate(t.view(), kU[u]) : parseTs(t.view(), kU[u]);
  ASSERTM((bool)r, "a number is accepted");
  ASSERTM(*r == (neg ? -v : v), "a number stands for itself");
  sym_cover("number parsed");
}
HARNESS(h_number_date) { whole(true); }
HARNESS(h_number_ts) { whole(false); }
// ---- text with a field out of range, or with anything left over, is not a time
HARNESS(h_reject_time) {
  Text t;
  int64_t h = t.num(2, "hour");
  t.lit(":");
  int64_t m = t.num(2, "minute");
  t.lit(":");
  int64_t s = t.num(2, "second");
  if (sym_choose("tail", 0, 1)) {
    char c = (char)sym_u8("tail");
    sym_assume((c != '.') & (c != '+') & (c != '-') & !((c >= 9) & (c <= 13)) & (c != ' '));
    t.b[t.n++] = c;
    Opt r = parseTime(t.view(), kU[sym_choose("unit", 0, 3)]);
    ASSERTM(!r, "text with something after the time is not a time");
    sym_cover("trailing text");
    return;
  }
  bool ok = (h <= 23) & (m <= 59) & (s <= 61);
  Opt r = parseTime(t.view(), kU[sym_choose("unit", 0, 3)]);
  ASSERTM((bool)r == ok, "a time is accepted exactly when its fields are in range");
  sym_cover("fields checked");
}
HARNESS(h_reject_date) {
  Text t;
  t.num(4, "year");
  t.lit("-");
  int64_t m = t.num(2, "month");
  t.lit("-");
  int64_t d = t.num(2, "day");
  bool ok = (m >= 1) & (m <= 12) & (d >= 1) & (d <= 31);
  Opt r = parseDate(t.view(), TimeUnit::kSecond);
  ASSERTM((bool)r == ok, "a date is accepted exactly when its fields are in range");
  sym_cover("date fields checked");
}
// ---- arbitrary text never makes the parser read outside it
HARNESS(h_any_text) {
#ifdef THOROUGH
  int n = sym_choose("length", 0, 8);
#else
  int n = sym_choose("length", 0, 6);
#endif
  char* b = new char[n ? n : 1];
  for (int i = 0; i < n; ++i) { b[i] = (char)sym_u8("char"); sym_assume((signed char)b[i] >= 0); }
  std::string_view s(b, n);
  Opt r = parseTime(s, TimeUnit::kSecond);
  if (r) ASSERTM((*r >= -360000) & (*r <= 2 * 86400 + 360000), "a time of day lies within a day");
  delete[] b;
  sym_cover("any text");
}
