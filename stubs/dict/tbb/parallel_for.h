// tbb::parallel_for: the range is cut at any point the symbolic executor chooses and the parts run in either order (the bodies used here write disjoint elements)
#pragma once
#include "tbb/blocked_range.h"
#include "sym.h"
namespace tbb {
template <class T, class F> void parallel_for(const blocked_range<T>& r, const F& f) {
  if (r.empty()) return;
  int cut = sym_choose("parallel cut", 0, (int)r.size() - 1);
  if (!cut) { f(r); return; }
  T mid = r.begin() + cut;
  f(blocked_range<T>(mid, r.end()));
  f(blocked_range<T>(r.begin(), mid));
}
}  // namespace tbb
