#pragma once
// stands for boost's checked 64-bit integer: results that do not fit 64 bits throw, as does division by zero
#include <cstdint>
#include <stdexcept>
namespace boost { namespace multiprecision {
enum cpp_integer_type { signed_magnitude = 1, unsigned_magnitude = 0 };
enum cpp_int_check_type { checked = 1, unchecked = 0 };
template <unsigned Min, unsigned Max, cpp_integer_type S, cpp_int_check_type C, class A> struct cpp_int_backend { static constexpr unsigned bits = Max; };
template <class B> struct number {
  int64_t v;
  static int64_t fit(bool bad, int64_t r) { if (bad || (B::bits < 63 && (r >= (int64_t(1) << B::bits) || -r >= (int64_t(1) << B::bits)))) throw std::overflow_error("overflow"); return r; }
  number(int64_t x = 0) : v(fit(false, x)) {}
  explicit operator int64_t() const { return v; }
  explicit operator int() const { if (v < INT32_MIN || v > INT32_MAX) throw std::range_error("range"); return (int)v; }
  explicit operator short() const { if (v < INT16_MIN || v > INT16_MAX) throw std::range_error("range"); return (short)v; }
  explicit operator bool() const { return v != 0; }
  template <class T> T convert_to() const { return static_cast<T>(*this); }
  friend number operator+(number a, number b) { int64_t r; bool o = __builtin_add_overflow(a.v, b.v, &r); return number(fit(o, r)); }
  friend number operator-(number a, number b) { int64_t r; bool o = __builtin_sub_overflow(a.v, b.v, &r); return number(fit(o, r)); }
  friend number operator*(number a, number b) { int64_t r; bool o = __builtin_mul_overflow(a.v, b.v, &r); return number(fit(o, r)); }
  friend number operator/(number a, number b) { if (b.v == 0 || (a.v == INT64_MIN && b.v == -1)) throw std::overflow_error("division"); return number(a.v / b.v); }
  friend number operator%(number a, number b) { if (b.v == 0) throw std::overflow_error("division"); return number(b.v == -1 ? 0 : a.v % b.v); }
  number operator-() const { return number(0) - *this; }
  number& operator+=(number b) { return *this = *this + b; }
  number& operator-=(number b) { return *this = *this - b; }
  number& operator*=(number b) { return *this = *this * b; }
  number& operator/=(number b) { return *this = *this / b; }
  friend bool operator==(number a, number b) { return a.v == b.v; }
  friend bool operator!=(number a, number b) { return a.v != b.v; }
  friend bool operator<(number a, number b) { return a.v < b.v; }
  friend bool operator<=(number a, number b) { return a.v <= b.v; }
  friend bool operator>(number a, number b) { return a.v > b.v; }
  friend bool operator>=(number a, number b) { return a.v >= b.v; }
};
} }
