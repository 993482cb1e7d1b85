// tbb::parallel_reduce: the range is cut at any point the symbolic executor chooses, the parts reduced from the identity separately and joined in order
#pragma once
#include "tbb/blocked_range.h"
#include "sym.h"
namespace tbb {
template <class T, class V, class F, class J> V parallel_reduce(const blocked_range<T>& r, const V& identity, const F& f, const J& join) {
  if (r.empty()) return identity;
  int cut = sym_choose("parallel cut", 0, (int)r.size() - 1);
  if (!cut) return f(r, identity);
  T mid = r.begin() + cut;
  V a = f(blocked_range<T>(r.begin(), mid), identity);
  V b = f(blocked_range<T>(mid, r.end()), identity);
  return join(a, b);
}
}  // namespace tbb
