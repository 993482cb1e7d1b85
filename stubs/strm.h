// A string stream without locales, for code that only composes text (Type::toString and the like).
#pragma once
#include <sstream>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <string>
#include <string_view>
#include <type_traits>
namespace std {
struct vf_stringstream {
  std::string s;
  vf_stringstream() = default;
  explicit vf_stringstream(const std::string& t) : s(t) {}
  std::string str() const { return s; }
  template <class T> vf_stringstream& operator<<(const T& v) {
    if constexpr (std::is_same_v<T, bool>) s.push_back(v ? '1' : '0');
    else if constexpr (std::is_same_v<T, char>) s.push_back(v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) s.append(std::string_view(v));
    else if constexpr (std::is_integral_v<T>) s.append(std::to_string(v));
    else s.push_back('?');
    return *this;
  }
  vf_stringstream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
}  // namespace std
#define stringstream vf_stringstream
#define ostringstream vf_stringstream
