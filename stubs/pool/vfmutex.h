// Stand-ins for std::mutex and std::condition_variable for histories of one thread: a lock that would block forever is reported,
// and a lock is memory like any other (using one that is gone is an error)
#pragma once
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include "sym.h"
namespace std {
struct VfMutex {
  bool held = false;
  void lock() { sym_assert(!held, "no deadlock with itself"); held = true; }
  bool try_lock() { if (held) return false; return held = true; }
  void unlock() { sym_assert(held, "only a held lock is released"); held = false; }
};
struct VfCv {
  int waits = 0;
  template <class L> void wait(L&) { sym_assert(false, "nothing waits for itself"); }
  template <class L, class P> void wait(L&, P) { sym_assert(false, "nothing waits for itself"); }
  void notify_all() { ++waits; }
  void notify_one() { ++waits; }
};
}  // namespace std
#define mutex VfMutex
#define condition_variable VfCv
