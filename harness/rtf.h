// The query run time, compiled from the repository's own source, plus helpers.
#pragma once
#include "sym.h"
#include "QueryEngine/RuntimeFunctions.cpp"
#include "Shared/InlineNullValues.h"
#include <type_traits>
template <class T> static inline T symT(const char* n) {
  if constexpr (std::is_same_v<T, float>) return sym_f32(n);
  else if constexpr (std::is_same_v<T, double>) return sym_f64(n);
  else if constexpr (sizeof(T) == 1) return (T)sym_u8(n);
  else if constexpr (sizeof(T) == 2) return (T)sym_u16(n);
  else if constexpr (sizeof(T) == 4) return (T)sym_u32(n);
  else return (T)sym_u64(n);
}
// SQL NULL of each type, written out independently of the repository
template <class T> static inline T sqlNull() {
  if constexpr (std::is_same_v<T, float>) return 1.17549435e-38f;
  else if constexpr (std::is_same_v<T, double>) return 2.2250738585072014e-308;
  else return (T)(T(1) << (sizeof(T) * 8 - 1));
}
// two values are the same bit pattern (all NaNs count as one)
template <class T> static inline bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) return bitsOf(a) == bitsOf(b) || (a != a && b != b);
  else return a == b;
}
template <class T> static inline T pick(bool c, T a, T b) { return c ? a : b; }
