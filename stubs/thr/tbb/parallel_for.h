// tbb::parallel_for on the scheduler of the symbolic executor: two chunks per range, one in a new thread
#pragma once
#include "tbb/blocked_range.h"
extern "C" void sym_thread(void (*fn)(void*), void* arg);
extern "C" void sym_join();
namespace tbb {
struct auto_partitioner {};
struct static_partitioner {};
template <class T, class F> void parallel_for(const blocked_range<T>& r, const F& f) {
  if (r.empty()) return;
  T mid = r.begin() + (r.end() - r.begin()) / 2;
  if (mid == r.begin()) { f(r); return; }
  struct C { const F* f; T b, e; } c{&f, r.begin(), mid};
  sym_thread([](void* p) { C* c = (C*)p; (*c->f)(blocked_range<T>(c->b, c->e)); }, &c);
  f(blocked_range<T>(mid, r.end()));
  sym_join();
}
template <class T, class F, class P> void parallel_for(const blocked_range<T>& r, const F& f, const P&) { parallel_for(r, f); }
template <class I, class F> void parallel_for(I b, I e, const F& f) {
  for (I i = b; i < e; ++i) f(i);
}
}  // namespace tbb
