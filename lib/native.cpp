// Native side of sym.h: replays recorded inputs against the natively compiled code.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>
#include <cxxabi.h>

static std::vector<uint64_t> g_in;
static std::vector<std::string> g_names;
static size_t g_pos;
static FILE* g_out;
static int g_failed;
static uint64_t next(const char* n) {
  // schedule decisions are consumed by the scheduler
  if (g_pos >= g_in.size()) return 0;
  return g_in[g_pos++];
}
extern "C" {
uint8_t sym_u8(const char* n) { return (uint8_t)next(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n); }
uint64_t sym_u64(const char* n) { return next(n); }
void sym_make(void* p, size_t n, const char* nm) {
  for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)next(nm);
}
static void finish(int code) {
  fflush(g_out);
  fflush(stdout);
  _exit(code);
}
void sym_assume(bool c) {
  if (!c) {
    fprintf(g_out, "ASSUME-FALSE\n");
    finish(43);
  }
}
void sym_assert(bool c, const char* m) {
  if (!c) {
    fprintf(g_out, "ASSERT-FAILED %s\n", m);
    finish(42);
  }
}
void sym_cover(const char*) {}
void sym_observe(uint64_t v) { fprintf(g_out, "OBS %llu\n", (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_dbg(const char* n, uint64_t v) { fprintf(g_out, "DBG %s %llu\n", n, (unsigned long long)v); }

// ---- threads: one baton; the recorded decisions say who runs after each yield point
static std::mutex g_m;
static std::condition_variable g_cv;
static int g_cur = 0;
static thread_local int t_me = 0;
struct Th { std::thread t; int status; int parent; };
static std::vector<Th*> g_th;  // [0] is main
static int g_preempt, g_maxPreempt = 2;
static bool childrenDone(int t) {
  for (size_t i = 1; i < g_th.size(); ++i)
    if (g_th[i]->parent == t && g_th[i]->status != 1) return false;
  return true;
}
static std::vector<int> enabled() {
  std::vector<int> en;
  for (size_t i = 0; i < g_th.size(); ++i) {
    if (g_th[i]->status == 0) en.push_back((int)i);
    if (g_th[i]->status == 2 && childrenDone((int)i)) en.push_back((int)i);
  }
  return en;
}
static void sched(std::unique_lock<std::mutex>& l, bool voluntary) {
  auto en = enabled();
  if (en.empty()) { fprintf(g_out, "DEADLOCK\n"); finish(44); }
  if (!voluntary && g_preempt >= g_maxPreempt) return;
  int t;
  if (en.size() == 1) t = en[0];
  else t = (int)(uint8_t)next("sched");
  if (!voluntary && t != g_cur) g_preempt++;
  if (t < 0 || t >= (int)g_th.size()) t = en[0];
  g_cur = t;
  if (g_th[t]->status == 2) g_th[t]->status = 0;
  g_cv.notify_all();
}
static void initMain() {
  if (g_th.empty()) { g_th.push_back(new Th{{}, 0, 0}); }
}
void sym_thread(void (*fn)(void*), void* arg) {
  std::unique_lock<std::mutex> l(g_m);
  initMain();
  int id = (int)g_th.size();
  auto* th = new Th{{}, 0, t_me};
  g_th.push_back(th);
  th->t = std::thread([=] {
    t_me = id;
    {
      std::unique_lock<std::mutex> l(g_m);
      g_cv.wait(l, [&] { return g_cur == id; });
    }
    fn(arg);
    std::unique_lock<std::mutex> l(g_m);
    g_th[id]->status = 1;
    sched(l, true);
  });
}
void sym_join() {
  std::unique_lock<std::mutex> l(g_m);
  initMain();
  if (!childrenDone(t_me)) {
    int me = t_me;
    g_th[me]->status = 2;
    sched(l, true);
    g_cv.wait(l, [&] { return g_cur == me; });
  }
}
void sym_yield_point() {
  if (g_th.size() < 2) return;
  std::unique_lock<std::mutex> l(g_m);
  if (g_th.size() < 2) return;
  sched(l, false);
  int me = t_me;
  g_cv.wait(l, [&] { return g_cur == me; });
}
static std::vector<std::pair<uint64_t, uint64_t>> g_shared;
void sym_shared(const void* p, size_t n) { g_shared.push_back({(uint64_t)p, n}); }
void sym_yield_addr(void* pp) {
  if (g_th.size() < 2) return;
  uint64_t p = (uint64_t)pp;
  bool in = false;
  for (auto& r : g_shared)
    if (p - r.first < r.second) in = true;
  if (!in) return;
  static thread_local uint64_t lastAddr;
  static thread_local int spin;
  std::unique_lock<std::mutex> l(g_m);
  bool moved = false;
  if (lastAddr != p) { lastAddr = p; spin = 0; }
  if (++spin > 4) {
    int n = (int)g_th.size();
    for (int d = 1; d < n; ++d) {
      int i = (g_cur + d) % n;
      if (g_th[i]->status == 0) { g_cur = i; spin = 0; moved = true; g_cv.notify_all(); break; }
    }
  }
  if (!moved) sched(l, false);
  int me = t_me;
  g_cv.wait(l, [&] { return g_cur == me; });
}
}
// usage: replay ENTRY INPUTFILE   (one decimal value per line)
int main(int argc, char** argv) {
  g_out = stdout;
  if (argc < 3) return 2;
  if (getenv("SYM_PREEMPT")) g_maxPreempt = atoi(getenv("SYM_PREEMPT"));
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  unsigned long long v;
  while (fscanf(f, "%llu", &v) == 1) g_in.push_back(v);
  fclose(f);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  try {
    fn();
  } catch (...) {
    auto* t = abi::__cxa_current_exception_type();
    fprintf(g_out, "UNCAUGHT %s\n", t ? t->name() : "?");
    finish(45);
  }
  for (auto* t : g_th)
    if (t->t.joinable()) t->t.join();
  fprintf(g_out, "END\n");
  finish(0);
}
