// Proleptic Gregorian calendar, written independently of the repository: a 400-year cycle of 146097 days is
// laid out year by year from the definition of leap years, and dates are counted forward from it.
#pragma once
#include "sym.h"
static inline bool isLeap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const int kMonthLen[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static inline int monthLen(int m, bool leap) { return kMonthLen[m] + (m == 2 && leap); }
static inline int daysBeforeMonth(int m, bool leap) { int r = 0; for (int i = 1; i < m; ++i) r += monthLen(i, leap); return r; }
// days from January 1 of year 0 of a cycle to January 1 of year k of the cycle, 0 <= k <= 400
static inline int daysBeforeYear(int k) { return k ? 365 * k + (k - 1) / 4 + 1 - (k - 1) / 100 : 0; }
static const int64_t kCycle = 146097;
static const int64_t kYear0 = -719528;  // day number (1970-01-01 is 0) of January 1 of year 0
// A date: cycle e (symbolic), year-in-cycle k and so leap-ness (concrete), day of year (symbolic, 0-based)
struct Date {
  int64_t e;
  int k;
  int doy;
  bool leap;
  int64_t year() const { return e * 400 + k; }
  int64_t jan1() const { return e * kCycle + (kYear0 + daysBeforeYear(k)); }
  int64_t day() const { return jan1() + doy; }
  int month() const {
    int m = 1;
    for (int i = 2; i <= 12; ++i) m += doy >= daysBeforeMonth(i, leap);
    return m;
  }
  int mday() const {  // 1-based
    int s = 0;
    for (int i = 2; i <= 12; ++i) s += (doy >= daysBeforeMonth(i, leap)) ? monthLen(i - 1, leap) : 0;
    return doy - s + 1;
  }
};
// near: years 1600..2399, each on its own path; far: every other 400-year cycle within the bound, the cycle left symbolic
static const int64_t kCycleLo = -730000000, kCycleHi = 730000000;
static inline Date mkDate(int64_t e, int klo, int khi) {
  Date r;
  r.e = e;
  r.k = sym_choose("year_in_cycle", klo, khi);
  r.leap = isLeap(r.k);
  r.doy = sym_range("day_of_year", 0, r.leap ? 365 : 364);
  return r;
}
static inline Date nearDate(int klo, int khi) { return mkDate(sym_choose("cycle", 4, 5), klo, khi); }
static inline Date farDate(int klo, int khi) {
  bool later = sym_choose("later", 0, 1);
  int64_t e = sym_range64("cycle", later ? 6 : kCycleLo, later ? kCycleHi : 3);
  return mkDate(e, klo, khi);
}
// one entry per 50 years of the cycle, for near and for far dates
#define CAL_ENTRIES(name, body)                                                     \
  HARNESS(h_##name##_n0) { body(nearDate(0, 49)); }                                 \
  HARNESS(h_##name##_n1) { body(nearDate(50, 99)); }                                \
  HARNESS(h_##name##_n2) { body(nearDate(100, 149)); }                              \
  HARNESS(h_##name##_n3) { body(nearDate(150, 199)); }                              \
  HARNESS(h_##name##_n4) { body(nearDate(200, 249)); }                              \
  HARNESS(h_##name##_n5) { body(nearDate(250, 299)); }                              \
  HARNESS(h_##name##_n6) { body(nearDate(300, 349)); }                              \
  HARNESS(h_##name##_n7) { body(nearDate(350, 399)); }                              \
  HARNESS(h_##name##_f0) { body(farDate(0, 49)); }                                  \
  HARNESS(h_##name##_f1) { body(farDate(50, 99)); }                                 \
  HARNESS(h_##name##_f2) { body(farDate(100, 149)); }                               \
  HARNESS(h_##name##_f3) { body(farDate(150, 199)); }                               \
  HARNESS(h_##name##_f4) { body(farDate(200, 249)); }                               \
  HARNESS(h_##name##_f5) { body(farDate(250, 299)); }                               \
  HARNESS(h_##name##_f6) { body(farDate(300, 349)); }                               \
  HARNESS(h_##name##_f7) { body(farDate(350, 399)); }
