// std::thread on which each worker runs to completion when it is started (the workers used here share nothing they write)
#pragma once
#include <cstddef>
#include <functional>
#include <future>
#include <thread>
namespace std {
struct VfThread {
  template <class F> explicit VfThread(F f) { f(); }
  VfThread(VfThread&&) = default;
  void join() {}
  static unsigned hardware_concurrency() { return 2; }
};
}  // namespace std
#define thread VfThread
