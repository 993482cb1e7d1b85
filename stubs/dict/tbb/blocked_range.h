#pragma once
#include <cstddef>
namespace tbb {
template <class T> class blocked_range {
  T b_, e_;
 public:
  using const_iterator = T;
  blocked_range(T b, T e, size_t = 1) : b_(b), e_(e) {}
  T begin() const { return b_; }
  T end() const { return e_; }
  size_t size() const { return size_t(e_ - b_); }
  bool empty() const { return !(b_ < e_); }
};
}  // namespace tbb
