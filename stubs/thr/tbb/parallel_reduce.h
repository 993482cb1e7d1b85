// tbb::parallel_reduce: the range is cut at any point the symbolic executor chooses, the parts reduced from the
// identity separately and joined in order (the combinations TBB may produce)
#pragma once
#include "tbb/blocked_range.h"
#include "sym.h"
namespace tbb {
template <class T, class V, class F, class J>
V parallel_reduce(const blocked_range<T>& r, const V& identity, const F& f, const J& join) {
  size_t n = r.size();
  int cut = n ? sym_choose("parallel_cut", 0, (int)n - 1) : 0;
  if (!cut) return f(r, identity);
  T mid = r.begin() + cut;
  V a = f(blocked_range<T>(r.begin(), mid), identity);
  V b = f(blocked_range<T>(mid, r.end()), identity);
  return join(a, b);
}
template <class T> struct VfDeduce {};
}  // namespace tbb
