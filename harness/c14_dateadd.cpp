// @sources omniscidb/QueryEngine/DateAdd.cpp omniscidb/QueryEngine/DateTruncate.cpp omniscidb/Utils/ExtractFromTime.cpp
// @flags -DEXECUTE_INCLUDE
// @bounds every second of the years 40 billion BC to 40 billion AD: 10 pairs of years within the 400-year cycle (start, and end or target of the addition) covering every leap-year rule (thorough: every start year with 12 target years), every start month with 3 end months (thorough: 12), the cycles, days and seconds arbitrary; amounts reaching any such target; all four timestamp precisions with any sub-second part (precision 3, 6, 9: years within 64 bits); fixed-length units: every amount and timestamp, arithmetic modulo 2^64
// @assume results representable in 64 bits
#include "cal.h"
#include "IR/DateTimeEnums.h"
using A = hdk::ir::DateAddField;
using F = hdk::ir::DateTruncField;
extern "C" {
int64_t DateAdd(A, int64_t, int64_t);
int64_t DateAddNullable(A, int64_t, int64_t, int64_t);
int64_t DateAddHighPrecision(A, int64_t, int64_t, int32_t);
int64_t DateAddHighPrecisionNullable(A, int64_t, int64_t, int32_t, int64_t);
int64_t DateDiff(F, int64_t, int64_t);
int64_t DateDiffNullable(F, int64_t, int64_t, int64_t);
int64_t DateDiffHighPrecision(F, int64_t, int64_t, int32_t, int32_t);
int64_t DateDiffHighPrecisionNullable(F, int64_t, int64_t, int32_t, int32_t, int64_t);
}
static const int64_t N = INT64_MIN;
// kinds of years within the 400-year cycle: start, and end or target of the addition
static const int kPair[][2] = {{0, 1}, {1, 0}, {3, 100}, {4, 399}, {99, 300}, {100, 104}, {101, 2}, {396, 199}, {399, 396}, {300, 3}};
static const int kY2t[] = {0, 1, 2, 3, 4, 96, 99, 100, 104, 300, 396, 399};
// a date with a chosen year within its cycle and a chosen month; the cycle and the day of the month are symbolic
struct MDate { int64_t e; int k, m, d; bool leap;
  int64_t year() const { return e * 400 + k; }
  int64_t day() const { return e * kCycle + (kYear0 + daysBeforeYear(k) + daysBeforeMonth(m, leap)) + (d - 1); }
};
// cycles of the two dates: both near (1600-2399), or later / earlier than that, symbolic
struct Cyc { int64_t a, b; };
static int64_t later(const char* e) { return sym_range64(e, 6, 100000000); }
static int64_t earlier(const char* e) { return sym_range64(e, -100000000, 3); }
static Cyc cycles() {
  switch (sym_choose("era", 0, 3)) {
    case 0: return {4, 4 + sym_choose("cycle2", 0, 1)};
    case 1: return {later("cycle1"), earlier("cycle2")};
    case 2: return {earlier("cycle1"), later("cycle2")};
    default: return {later("cycle1"), later("cycle2")};
  }
}
static MDate mk(int64_t e, int k, int m, const char* d, bool split = true) {
  MDate r;
  r.k = k;
  r.m = m;
  r.e = e;
  r.leap = isLeap(k);
  r.d = sym_range(d, 1, monthLen(m, r.leap));
  if (split && r.d > 27) r.d = (int)sym_concretize(r.d);
  return r;
}
struct YY { int k1, k2; };
static YY years(int g) {
#ifdef THOROUGH
  return {sym_choose("year1", g * 40, g * 40 + 39), kY2t[sym_choose("year2", 0, 11)]};
#else
  return {kPair[g][0], kPair[g][1]};
#endif
}
static int month2(int g) {
#ifdef THOROUGH
  return sym_choose("month2", 1, 12);
#else
  static const int m[3][3] = {{1, 2, 3}, {2, 4, 12}, {2, 7, 11}};
  return m[g % 3][sym_choose("month2", 0, 2)];
#endif
}
// second since the epoch of: month m, 1-based day d clamped to the month's length, second s of the date's year
static int64_t at(int64_t e, int k, int m, int d, int64_t s) {
  bool leap = isLeap(k);
  int before = 0, len = 31;
  for (int i = 2; i <= 12; ++i) { before += m >= i ? monthLen(i - 1, leap) : 0; len = m == i ? monthLen(i, leap) : len; }
  int dd = d < len ? d : len;
  return (e * kCycle + (kYear0 + daysBeforeYear(k)) + before + dd - 1) * 86400 + s;
}
static void ckAdd(A f, int64_t n, int64_t t, int64_t want, const char* msg) {
  int64_t v = DateAdd(f, n, t);
  sym_observe(v);
  sym_assert(v == want, msg);
  sym_assert(DateAddNullable(f, n, t, N) == want, "the nullable variant");
}
static void months(int g) {
  YY y = years(g);
  int k2 = y.k2;
  Cyc c = cycles();
  MDate a = mk(c.a, y.k1, sym_choose("month1", 1, 12), "day1");
  int64_t s = sym_range64("second_of_day", 0, 86399), t = a.day() * 86400 + s;
  int64_t e2 = c.b;
  int m1 = a.m, d1 = a.d;
  int64_t years = 400 * (e2 - a.e) + (k2 - a.k);
  int m2 = month2(g);
  ckAdd(A::kMonth, 12 * years + (m2 - m1), t, at(e2, k2, m2, d1, s), "months added, day clamped to the month's end");
  int q = (m2 - m1) / 3;
  ckAdd(A::kQuarter, 4 * years + q, t, at(e2, k2, m1 + 3 * q, d1, s), "quarters added");
  ckAdd(A::kYear, years, t, at(e2, k2, m1, d1, s), "years added");
  sym_cover("months");
}
#define GROUPS(name, f)                                                                                                 \
  HARNESS(name##_0) { f(0); }                                                                                           \
  HARNESS(name##_1) { f(1); }                                                                                           \
  HARNESS(name##_2) { f(2); }                                                                                           \
  HARNESS(name##_3) { f(3); }                                                                                           \
  HARNESS(name##_4) { f(4); }                                                                                           \
  HARNESS(name##_5) { f(5); }                                                                                           \
  HARNESS(name##_6) { f(6); }                                                                                           \
  HARNESS(name##_7) { f(7); }                                                                                           \
  HARNESS(name##_8) { f(8); }                                                                                           \
  HARNESS(name##_9) { f(9); }
GROUPS(h_months, months)
// decades, centuries, millennia: the amount decides the target year
HARNESS(h_large) {
  static const int ks[] = {0, 1, 4, 96, 100, 304, 396, 399};
  MDate a = mk(sym_choose("era", 0, 1) ? 4 : -sym_range64("cycle1", -3, 100000000), ks[sym_choose("year1", 0, 7)], 1 + sym_choose("month", 0, 1), "day1");
  int64_t s = sym_range64("second_of_day", 0, 86399), t = a.day() * 86400 + s;
  int m = a.m, d = a.d;
  int u = sym_choose("unit", 0, 2);
  int len = u == 0 ? 10 : u == 1 ? 100 : 1000, per = u == 0 ? 40 : u == 1 ? 4 : 2;  // per units make whole cycles
  int64_t p = 0;
  switch (sym_choose("amount", 0, 2)) {
    case 0: p = sym_range64("whole", 100000100, 200000000); break;
    case 1: p = -sym_range64("whole", 100000100, 200000000); break;
    default: p = sym_choose("whole", -1, 1);
  }
  int g = sym_choose("rest", 0, u == 0 ? 3 : per - 1);
  if (u == 0) g = g * 13;  // 0, 13, 26, 39 decades
  int y = a.k + g * len;
  ckAdd(u == 0 ? A::kDecade : u == 1 ? A::kCentury : A::kMillennium, p * per + g, t, at(a.e + p * (u == 2 ? 5 : 1) + y / 400, y % 400, m, d, s), "decades, centuries or millennia added");
  sym_cover("large");
}
HARNESS(h_fixed_add) {
  uint64_t n = sym_u64("amount"), t = sym_u64("t");
  static const A f[] = {A::kSecond, A::kMinute, A::kHour, A::kDay, A::kWeekDay, A::kDayOfYear, A::kWeek};
  static const int64_t len[] = {1, 60, 3600, 86400, 86400, 86400, 604800};
  int i = sym_choose("unit", 0, 6);
  int64_t want = (int64_t)(t + n * len[i]);
  sym_observe(DateAdd(f[i], n, t));
  sym_assert(DateAdd(f[i], n, t) == want, "fixed-length units added");
  sym_assert(DateAddNullable(f[i], n, t, N) == ((int64_t)t == N ? N : want), "NULL stays NULL");
  sym_assert(DateAddNullable(A::kMonth, n, N, N) == N && DateAddNullable(A::kYear, n, N, N) == N, "NULL plus months is NULL");
  sym_assert(DateAddHighPrecisionNullable(f[i], n, N, 3, N) == N && DateAddHighPrecisionNullable(A::kMicro, n, N, 6, N) == N, "NULL high precision timestamp stays NULL");
  // a date plus 0 of anything is itself, at second precision the high precision entry point agrees
  sym_assert(DateAddHighPrecision(f[i], n, t, 0) == want, "precision 0 is seconds");
}
static const int64_t kPow[] = {1, 1000, 1000000, 1000000000};
// sub-second part is kept; sub-second amounts rounded toward the past when the timestamp is coarser
HARNESS(h_add_hp) {
  int di = sym_choose("precision", 0, 3);
  int64_t u = kPow[di], sub = sym_range64("sub", 0, u - 1);
  int64_t sec = sym_range64("sec", -4000000000, 4000000000), t = sec * u + sub;
  int what = sym_choose("what", 0, 9);
  if (what < 7) {
    static const A f[] = {A::kSecond, A::kMinute, A::kHour, A::kDay, A::kWeekDay, A::kDayOfYear, A::kWeek};
    static const int64_t len[] = {1, 60, 3600, 86400, 86400, 86400, 604800};
    int64_t n = sym_range64("amount", -8000, 8000), want = (sec + n * len[what]) * u + sub;
    sym_assert(DateAddHighPrecision(f[what], n, t, 3 * di) == want, "fixed-length unit added at high precision");
    sym_assert(DateAddHighPrecisionNullable(f[what], n, t, 3 * di, N) == want, "nullable fixed-length unit added at high precision");
    sym_observe(want);
  } else {
    static const A f[] = {A::kMilli, A::kMicro, A::kNano};
    int fi = what - 6;  // power of 1000 of the unit
    int64_t n = sym_range64("amount", -4000000000000, 4000000000000), q, r;
    if (fi <= di) { sym_assume(n >= -4000000000 && n <= 4000000000); q = n * kPow[di - fi]; }
    else {
      int64_t p = kPow[fi - di];
      q = sym_range64("quot", -4000000000000 / p, 4000000000000 / p);
      r = sym_range64("rem", 0, p - 1);
      sym_assume(n == q * p + r);
    }
    sym_assert(DateAddHighPrecision(f[fi - 1], n, t, 3 * di) == t + q, "sub-second unit added");
    sym_assert(DateAddHighPrecisionNullable(f[fi - 1], n, t, 3 * di, N) == t + q, "nullable sub-second unit added");
    sym_observe(t + q);
    sym_cover("sub-second unit");
  }
}
// ----- differences
struct Instant { int64_t month; int d; int64_t s, sub; };  // months since year 0, day of month, second, sub-second (ns)
static Instant inst(const MDate& a, int64_t s, int64_t sub) { return {a.year() * 12 + a.m, a.d, s, sub}; }
static bool before(const Instant& a, const Instant& b) {  // position within the month
  return (a.d < b.d) | ((a.d == b.d) & ((a.s < b.s) | ((a.s == b.s) & (a.sub < b.sub))));
}
static int64_t wholeMonths(const Instant& a, const Instant& b) {  // complete months from a to b, negative when b is earlier
  bool fwd = (a.month < b.month) | ((a.month == b.month) & !before(b, a));
  int64_t f = b.month - a.month - (int64_t)before(b, a), r = a.month - b.month - (int64_t)before(a, b);
  return fwd ? f : -r;
}
static void ckDiff(F f, int64_t a, int64_t b, int64_t want, const char* msg) {
  int64_t v = DateDiff(f, a, b);
  sym_observe(v);
  sym_assert(v == want, msg);
  sym_assert(DateDiffNullable(f, a, b, N) == want, "the nullable variant");
}
// q == m / len, truncated toward zero, without a division in the oracle
static bool isQuot(int64_t q, int64_t m, int64_t len) {
  int64_t r = m - q * len;
  return (m >= 0) ? (r >= 0) & (r < len) : (r <= 0) & (r > -len);
}
static void diff(int g) {
  YY y = years(g);
  Cyc c = cycles();
  MDate a = mk(c.a, y.k1, sym_choose("month1", 1, 12), "day1", false), b = mk(c.b, y.k2, month2(g), "day2", false);
  int64_t s1 = sym_range64("second1", 0, 86399), s2 = sym_range64("second2", 0, 86399);
  int64_t t1 = a.day() * 86400 + s1, t2 = b.day() * 86400 + s2;
  Instant i = inst(a, s1, 0), j = inst(b, s2, 0);
  int64_t m = wholeMonths(i, j);
  ckDiff(F::kMonth, t1, t2, m, "complete months");
  static const F f[] = {F::kQuarter, F::kYear, F::kDecade, F::kCentury, F::kMillennium};
  static const int64_t len[] = {3, 12, 120, 1200, 12000};
  for (int x = 0; x < 5; ++x) {
    int64_t v = DateDiff(f[x], t1, t2);
    sym_assert(isQuot(v, m, len[x]), "complete quarters, years, decades, centuries or millennia");
    sym_assert(DateDiffNullable(f[x], t1, t2, N) == v, "the nullable variant");
  }
  sym_cover("diff");
}
GROUPS(h_diff, diff)
HARNESS(h_diff_fixed) {
  static const F f[] = {F::kSecond, F::kMinute, F::kHour, F::kQuarterDay, F::kDay, F::kWeek, F::kWeekSunday, F::kWeekSaturday};
  static const int64_t len[] = {1, 60, 3600, 21600, 86400, 604800, 604800, 604800};
  int x = sym_choose("unit", 0, 7);
  int64_t a = sym_range64("start", -(1ll << 61), 1ll << 61), b = sym_range64("end", -(1ll << 61), 1ll << 61);
  int64_t v = DateDiff(f[x], a, b);
  sym_observe(v);
  sym_assert(isQuot(v, b - a, len[x]), "complete fixed-length units");
  sym_assert(DateDiffNullable(f[x], a, b, N) == v, "the nullable variant");
  sym_assert(DateDiffNullable(f[x], N, b, N) == N && DateDiffNullable(f[x], a, N, N) == N, "NULL difference");
  sym_assert(DateDiffNullable(F::kMonth, N, b, N) == N && DateDiffNullable(F::kYear, a, N, N) == N, "NULL difference in months");
  sym_assert(DateDiffHighPrecisionNullable(f[x], N, b, 3, 9, N) == N && DateDiffHighPrecisionNullable(f[x], a, N, 0, 6, N) == N, "NULL high precision difference");
  int64_t c = sym_range64("start2", -4000000000, 4000000000), d = sym_range64("end2", -4000000000, 4000000000);
  sym_assert(DateDiff(F::kMilli, c, d) == (d - c) * 1000 && DateDiff(F::kMicro, c, d) == (d - c) * 1000000 && DateDiff(F::kNano, c, d) == (d - c) * 1000000000, "sub-second units");
}
// high precision: seconds and sub-seconds of both ends, any mix of precisions
HARNESS(h_diff_hp_fixed) {
  static const F f[] = {F::kSecond, F::kMinute, F::kHour, F::kQuarterDay, F::kDay, F::kWeek, F::kWeekSunday, F::kWeekSaturday, F::kMilli, F::kMicro, F::kNano};
  static const int64_t len[] = {1, 60, 3600, 21600, 86400, 604800, 604800, 604800};
  int d1 = sym_choose("precision1", 0, 3), d2 = sym_choose("precision2", 0, 3), x = sym_choose("unit", 0, 10);
  int64_t u1 = kPow[d1], u2 = kPow[d2];
  int64_t s1 = sym_range64("sec1", -4000000000, 4000000000), s2 = sym_range64("sec2", -4000000000, 4000000000);
  int64_t b1 = sym_range64("sub1", 0, u1 - 1), b2 = sym_range64("sub2", 0, u2 - 1);
  int64_t v = DateDiffHighPrecision(f[x], s1 * u1 + b1, s2 * u2 + b2, 3 * d1, 3 * d2);
  int64_t ns = (s2 - s1) * 1000000000 + b2 * (1000000000 / u2) - b1 * (1000000000 / u1);  // exact difference
  sym_observe(v);
  sym_assert(isQuot(v, ns, x < 8 ? len[x] * 1000000000 : kPow[10 - x]), "complete units between two high precision timestamps");
  sym_assert(DateDiffHighPrecisionNullable(f[x], s1 * u1 + b1, s2 * u2 + b2, 3 * d1, 3 * d2, N) == v, "the nullable variant");
  sym_cover("hp fixed");
}
static void diffHp(int g) {
  static const int kp[][2] = {{1, 1}, {3, 0}, {0, 2}, {2, 3}};
  const int* p = kp[g];
  int ka = 371, kb = 371 + sym_choose("year2", 0, 1);
  MDate a = mk(4, ka, sym_choose("month1", 1, 12), "day1", false), b = mk(4, kb, month2(g), "day2", false);
  int64_t s1 = sym_range64("second1", 0, 86399), s2 = sym_range64("second2", 0, 86399);
  int64_t u1 = kPow[p[0]], u2 = kPow[p[1]];
  int64_t b1 = sym_range64("sub1", 0, u1 - 1), b2 = sym_range64("sub2", 0, u2 - 1);
  int64_t t1 = (a.day() * 86400 + s1) * u1 + b1, t2 = (b.day() * 86400 + s2) * u2 + b2;
  int64_t m = wholeMonths(inst(a, s1, b1 * (1000000000 / u1)), inst(b, s2, b2 * (1000000000 / u2)));
  int64_t v = DateDiffHighPrecision(F::kMonth, t1, t2, 3 * p[0], 3 * p[1]);
  sym_observe(v);
  sym_assert(v == m, "complete months between two high precision timestamps");
  sym_assert(isQuot(DateDiffHighPrecision(F::kQuarter, t1, t2, 3 * p[0], 3 * p[1]), m, 3), "complete quarters");
  sym_assert(isQuot(DateDiffHighPrecision(F::kYear, t1, t2, 3 * p[0], 3 * p[1]), m, 12), "complete years");
  sym_cover("hp months");
}
HARNESS(h_diff_hp_0) { diffHp(0); }
HARNESS(h_diff_hp_1) { diffHp(1); }
HARNESS(h_diff_hp_2) { diffHp(2); }
HARNESS(h_diff_hp_3) { diffHp(3); }
