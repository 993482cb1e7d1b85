// Interface between harnesses and the symbolic executor (or the native replayer).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
void sym_make(void* p, size_t n, const char* name);
void sym_assume(bool c);
__attribute__((nomerge)) void sym_assert(bool c, const char* msg);
__attribute__((nomerge)) void sym_cover(const char* name);
void sym_observe(uint64_t v);
uint64_t sym_concretize(uint64_t v);
void sym_thread(void (*fn)(void*), void* arg);
void sym_join();
void sym_yield_point();
void sym_yield_addr(void* p);
void sym_shared(const void* p, size_t n);  // accesses to this region are scheduling points
void sym_dbg(const char* n, uint64_t v);
}
#define HARNESS(name) extern "C" void name()
#define ASSERT(c) sym_assert((c), #c)
#define ASSERTM(c, m) sym_assert((c), m)
static inline int64_t sym_i64(const char* n) { return (int64_t)sym_u64(n); }
static inline int32_t sym_i32(const char* n) { return (int32_t)sym_u32(n); }
static inline int16_t sym_i16(const char* n) { return (int16_t)sym_u16(n); }
static inline int8_t sym_i8(const char* n) { return (int8_t)sym_u8(n); }
static inline bool sym_bool(const char* n) { uint8_t b = sym_u8(n); sym_assume(b < 2); return b & 1; }
static inline double sym_f64(const char* n) { uint64_t b = sym_u64(n); double d; memcpy(&d, &b, 8); return d; }
static inline float sym_f32(const char* n) { uint32_t b = sym_u32(n); float d; memcpy(&d, &b, 4); return d; }
// an int in [lo, hi], explored value by value
static inline int sym_choose(const char* n, int lo, int hi) {
  int v = (int)sym_u32(n);
  sym_assume(v >= lo && v <= hi);
  return (int)sym_concretize((uint64_t)(uint32_t)v);
}
static inline int sym_range(const char* n, int lo, int hi) {
  int v = (int)sym_u32(n);
  sym_assume(v >= lo && v <= hi);
  return v;
}
static inline int64_t sym_range64(const char* n, int64_t lo, int64_t hi) {
  int64_t v = (int64_t)sym_u64(n);
  sym_assume(v >= lo && v <= hi);
  return v;
}
template <class T> static inline uint64_t bitsOf(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
