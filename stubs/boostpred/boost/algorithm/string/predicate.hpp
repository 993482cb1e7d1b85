// Stand-in for boost/algorithm/string/predicate.hpp: the same predicates for ASCII text in the "C" locale,
// without std::locale.
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
namespace boost {
namespace algorithm {
inline char vfLower(char c) { return (c >= 'A') & (c <= 'Z') ? (char)(c + 32) : c; }
inline bool vfStarts(std::string_view a, std::string_view b, bool fold) {
  if (a.size() < b.size()) return false;
  bool eq = true;
  for (size_t i = 0; i < b.size(); ++i) eq &= fold ? vfLower(a[i]) == vfLower(b[i]) : a[i] == b[i];
  return eq;
}
inline bool istarts_with(std::string_view a, std::string_view b) { return vfStarts(a, b, true); }
inline bool starts_with(std::string_view a, std::string_view b) { return vfStarts(a, b, false); }
inline bool iequals(std::string_view a, std::string_view b) { return a.size() == b.size() && vfStarts(a, b, true); }
inline bool equals(std::string_view a, std::string_view b) { return a == b; }
inline bool ends_with(std::string_view a, std::string_view b) {
  return a.size() >= b.size() && vfStarts(a.substr(a.size() - b.size()), b, false);
}
inline bool iends_with(std::string_view a, std::string_view b) {
  return a.size() >= b.size() && vfStarts(a.substr(a.size() - b.size()), b, true);
}
}  // namespace algorithm
using algorithm::ends_with;
using algorithm::equals;
using algorithm::iends_with;
using algorithm::iequals;
using algorithm::istarts_with;
using algorithm::starts_with;
}  // namespace boost
