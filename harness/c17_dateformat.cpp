// @sources omniscidb/Shared/misc.cpp
// @bounds every second of the years 0-9999, each year within the 400-year cycle explored, cycle, day and second arbitrary; milli- and microsecond fractions over the same years, nanoseconds over the years 1700-2199; time of day: every 64-bit second; every buffer size from 0 to 40 bytes
#include "Shared/misc.h"
#include "cal.h"
#include <cstdlib>
using hdk::ir::TimeUnit;
static const TimeUnit kU[4] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
static const int64_t kS[4] = {1, 1000, 1000000, 1000000000};
// the n digits at p spell v
static bool spells(const char* p, int n, int64_t v) {
  int64_t x = 0;
  bool ok = true;
  for (int i = 0; i < n; ++i) {
    ok &= (p[i] >= '0') & (p[i] <= '9');
    x = x * 10 + (p[i] - '0');
  }
  return ok & (x == v);
}
static bool dateText(const char* b, const Date& d) {
  return spells(b, 4, d.year()) & (b[4] == '-') & spells(b + 5, 2, d.month()) & (b[7] == '-') & spells(b + 8, 2, d.mday());
}
static Date pick(int klo, int khi) {
  int g = sym_choose("era", 0, 2);
  int64_t e = g == 1 ? 4 : g == 0 ? sym_range64("cycle", 0, 3) : sym_range64("cycle", 5, 24);
  return mkDate(e, klo, khi);
}
static void dates(int klo, int khi) {
  Date d = pick(klo, khi);
  int64_t s = sym_range64("second", 0, 86399);
  char b[16];
  memset(b, 'x', sizeof b);
  size_t n = shared::formatDate(b, sizeof b, d.day() * 86400 + s);
  ASSERTM(n == 10 && b[10] == 0, "a date is written with ten characters");
  ASSERTM(dateText(b, d), "the written date is the date of the instant");
  sym_cover("date");
}
#define E8(name, body) \
  HARNESS(h_##name##0) { body(0, 49); } HARNESS(h_##name##1) { body(50, 99); } HARNESS(h_##name##2) { body(100, 149); } HARNESS(h_##name##3) { body(150, 199); } \
  HARNESS(h_##name##4) { body(200, 249); } HARNESS(h_##name##5) { body(250, 299); } HARNESS(h_##name##6) { body(300, 349); } HARNESS(h_##name##7) { body(350, 399); }
E8(date, dates)
// timestamps: the date part is compared with formatDate's on the same day, whose text the entries above decide
static void stamp(int u) {
  int64_t day = u == 3 ? sym_range64("day", -98615, 83000) : sym_range64("day", -719528, 2932896);
  if (day < 11017) sym_cover("before March 2000"); else sym_cover("after March 2000");
  int h = sym_range("hour", 0, 23), m = sym_range("minute", 0, 59), s = sym_range("second", 0, 59);
  int64_t f = u ? sym_range64("fraction", 0, kS[u] - 1) : 0;
  int64_t t = (day * 86400 + h * 3600 + m * 60 + s) * kS[u] + f;
  char b[40], c[16];
  size_t n = shared::formatDateTime(b, sizeof b, t, kU[u]);
  size_t k = shared::formatDate(c, sizeof c, day * 86400);
  ASSERTM(k == 10, "date text");
  ASSERTM(n == (size_t)(19 + (u ? 1 + 3 * u : 0)) && b[n] == 0, "a timestamp's text has the length of its form");
  bool same = true;
  for (int i = 0; i < 10; ++i) same &= b[i] == c[i];
  ASSERTM(same, "a timestamp's text starts with its date");
  ASSERTM((b[10] == ' ') & spells(b + 11, 2, h) & (b[13] == ':') & spells(b + 14, 2, m) & (b[16] == ':') & spells(b + 17, 2, s), "then its time of day");
  if (u) ASSERTM((b[19] == '.') & spells(b + 20, 3 * u, f), "then its fraction");
}
HARNESS(h_stamp_s) { stamp(0); }
HARNESS(h_stamp_ms) { stamp(1); }
HARNESS(h_stamp_us) { stamp(2); }
HARNESS(h_stamp_ns) { stamp(3); }
HARNESS(h_hms) {
  int h = sym_range("hour", 0, 23), m = sym_range("minute", 0, 59), s = sym_range("second", 0, 59);
  int64_t day = sym_range64("day", -106751991167300LL, 106751991167299LL);
  char b[16];
  size_t n = shared::formatHMS(b, sizeof b, day * 86400 + h * 3600 + m * 60 + s);
  ASSERTM(n == 8 && b[8] == 0, "a time of day is written with eight characters");
  ASSERTM(spells(b, 2, h) & (b[2] == ':') & spells(b + 3, 2, m) & (b[5] == ':') & spells(b + 6, 2, s), "the written time is the time of day");
  sym_cover("hms");
}
// a buffer that is too small is reported, and never overrun
HARNESS(h_small) {
  int kind = sym_choose("kind", 0, 5), max = sym_choose("size", 0, 40);
  int64_t day = sym_range64("day", 12000, 83000);
  int64_t s = sym_range64("second", 0, 86399);
  char* b = (char*)malloc(max ? max : 1);
  size_t need, n;
  if (kind == 0) { need = 10; n = shared::formatDate(b, max, day * 86400 + s); }
  else if (kind == 1) { need = 8; n = shared::formatHMS(b, max, s); }
  else {
    int u = kind - 2;
    need = 19 + (u ? 1 + 3 * u : 0);
    n = shared::formatDateTime(b, max, (day * 86400 + s) * kS[u], kU[u]);
  }
  if ((size_t)max > need) { ASSERTM(n == need, "text that fits is written"); sym_cover("fits"); }
  else { ASSERTM(n == 0, "text that does not fit is reported"); sym_cover("does not fit"); }
  free(b);
}
