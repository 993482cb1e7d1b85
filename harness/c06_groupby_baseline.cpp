// @sources @lib/murmur_real.cpp
// @bounds tables of 1 to 3 entries (thorough: 4) and every sequence of up to 4 keys (thorough: 5), 1 or 2 key columns of 4 or 8 bytes, one 8-byte value per group, row-wise and columnar layout, every hash function; probe sequences of up to 104 entries for the watchdog variants; hash function itself: every key of 4 to 16 bytes
// @assume no first key component equals the empty-slot marker; table lookups use an arbitrary deterministic hash function in place of the real one (checked separately)
#include "rtf.h"
#ifdef THOROUGH
enum { MAXN = 4, MAXK = 5 };
#else
enum { MAXN = 3, MAXK = 4 };
#endif
// arbitrary deterministic hash: equal keys, equal hashes
static int8_t g_keys[MAXK + 2][16];
static uint32_t g_hash[MAXK + 2];
static int g_nk, g_len;
static uint32_t g_mod;
static bool g_fixed;
static uint32_t absHash(const void* key, int len) {
  if (g_fixed) return 0;
  if (g_nk) sym_assert(len == g_len, "every lookup hashes the same number of bytes");
  g_len = len;
  for (int i = 0; i < g_nk; ++i)
    if (!memcmp(g_keys[i], key, len)) return g_hash[i];
  memcpy(g_keys[g_nk], key, len);
  uint32_t h = sym_choose("hash", 0, g_mod - 1);
  g_hash[g_nk++] = h;
  return h;
}
extern "C" uint32_t MurmurHash3(const void* key, int len, const uint32_t seed) { return absHash(key, len); }
extern "C" uint64_t MurmurHash64A(const void* key, int len, uint64_t seed) { return absHash(key, len); }
extern "C" uint32_t MurmurHash1(const void* key, int len, const uint32_t seed) { return absHash(key, len); }
extern "C" uint32_t MurmurHash3_real(const void* key, int len, const uint32_t seed);
extern "C" uint64_t MurmurHash64A_real(const void* key, int len, uint64_t seed);
extern "C" uint32_t MurmurHash1_real(const void* key, int len, const uint32_t seed);
static int g_wd_calls;
static bool g_wd_fire;
extern "C" bool dynamic_watchdog() { ++g_wd_calls; return g_wd_fire; }
struct Key { int64_t q[2]; };
// layout: 0 row-wise, 1 columnar by slot, 2 columnar by pointer; wd: watchdog variant
template <int LAYOUT, bool WD> static void table(int kw) {
  int N = sym_choose("entries", 1, MAXN), kc = sym_choose("key_columns", 1, 2), M = sym_choose("keys", 1, MAXK);
  if (LAYOUT == 2 && kw == 4) return;
  g_mod = N;
  const int kq = (kc * kw + 7) / 8;       // quadwords taken by the key of a row
  const int row = kq + 1;                 // row-wise row: key, then one value
  // 8 guard quadwords on both sides
  int64_t mem[8 + MAXN * 3 + 8];
  for (auto& q : mem) q = 0x5a5a5a5a5a5a5a5aLL;
  int64_t* buf = mem + 8;
  int64_t* vals = LAYOUT ? (LAYOUT == 1 && kw == 4 ? buf + (kc * N + 1) / 2 : buf + kc * N) : nullptr;
  int used = LAYOUT ? (int)(vals - buf) + N : N * row;
  for (int i = 0; i < used; ++i) buf[i] = 0;
  if (LAYOUT == 0) {
    for (int i = 0; i < N; ++i)
      for (int c = 0; c < kc; ++c) kw == 4 ? (void)(((int32_t*)(buf + i * row))[c] = EMPTY_KEY_32) : (void)(buf[i * row + c] = EMPTY_KEY_64);
  } else {
    for (int i = 0; i < N * kc; ++i) kw == 4 ? (void)(((int32_t*)buf)[i] = EMPTY_KEY_32) : (void)(buf[i] = EMPTY_KEY_64);
  }
  Key keys[MAXK];
  int64_t* slot[MAXK];
  int64_t cnt[MAXK];
  int distinct = 0, idx[MAXK];
  for (int j = 0; j < M; ++j) {
    Key& k = keys[j];
    k.q[0] = k.q[1] = 0;
    for (int c = 0; c < kc; ++c) {
      if (kw == 4) {
        int32_t v = sym_i32("key");
        sym_assume(v != EMPTY_KEY_32);
        memcpy((char*)k.q + 4 * c, &v, 4);
      } else {
        k.q[c] = sym_i64("key");
        sym_assume(k.q[c] != EMPTY_KEY_64);
      }
    }
    int64_t* r;
    if (LAYOUT == 0) r = WD ? get_group_value_with_watchdog(buf, N, k.q, kc, kw, row) : get_group_value(buf, N, k.q, kc, kw, row);
    else if (LAYOUT == 1) {
      int s = WD ? get_group_value_columnar_slot_with_watchdog(buf, N, k.q, kc, kw) : get_group_value_columnar_slot(buf, N, k.q, kc, kw);
      sym_assert(s >= -1 && s < N, "slot within the table");
      r = s < 0 ? nullptr : vals + s;
    } else r = WD ? get_group_value_columnar_with_watchdog(buf, N, k.q, kc) : get_group_value_columnar(buf, N, k.q, kc);
    // the reference: the first earlier key equal to this one
    int d = -1;
    for (int i = 0; i < distinct && d < 0; ++i)
      if (!memcmp(keys[idx[i]].q, k.q, kc * kw)) d = i;
    if (d < 0) {
      if (distinct == N) {
        sym_assert(!r, "a full table reports that it is full");
        sym_cover("full");
        continue;
      }
      sym_assert(r != nullptr, "a new key finds a free slot");
      for (int i = 0; i < distinct; ++i) sym_assert(r != slot[i], "different keys have different slots");
      idx[distinct] = j;
      slot[distinct] = r;
      cnt[distinct] = 0;
      d = distinct++;
      sym_cover("inserted");
    } else {
      sym_assert(r == slot[d], "an equal key finds its slot again");
      sym_cover("found");
    }
    ptrdiff_t at = r - buf;
    bool ok = false;
    for (int i = 0; i < N; ++i) ok |= at == (LAYOUT == 0 ? i * row + kq : (vals - buf) + i);
    sym_assert(ok, "the slot is the value slot of a row");
    ++*r;
    ++cnt[d];
  }
  // every group is in the buffer with its key and its count, all other rows are empty, nothing else was written
  int filled = 0;
  for (int i = 0; i < N; ++i) {
    int64_t* v = LAYOUT == 0 ? buf + i * row + kq : vals + i;
    Key k = {{0, 0}};
    for (int c = 0; c < kc; ++c) {
      int pos = LAYOUT == 0 ? 0 : c * N + i;
      if (kw == 4) memcpy((char*)k.q + 4 * c, LAYOUT == 0 ? (char*)(buf + i * row) + 4 * c : (char*)buf + 4 * pos, 4);
      else k.q[c] = LAYOUT == 0 ? buf[i * row + c] : buf[pos];
    }
    int d = -1;
    for (int j = 0; j < distinct; ++j) if (slot[j] == v) d = j;
    if (d < 0) {
      bool empty = kw == 4 ? (int32_t)k.q[0] == EMPTY_KEY_32 : k.q[0] == EMPTY_KEY_64;
      sym_assert(empty && *v == 0, "an unused row stays empty");
    } else {
      sym_assert(!memcmp(k.q, keys[idx[d]].q, kc * kw), "a used row holds its key");
      sym_assert(*v == cnt[d], "a used row holds its value");
      ++filled;
    }
  }
  sym_assert(filled == distinct, "every group is stored");
  for (int i = 0; i < 8; ++i) sym_assert(mem[i] == 0x5a5a5a5a5a5a5a5aLL && buf[used + i] == 0x5a5a5a5a5a5a5a5aLL, "nothing outside the table is written");
  sym_observe(distinct);
}
HARNESS(h_row_4) { table<0, false>(4); }
HARNESS(h_row_8) { table<0, false>(8); }
HARNESS(h_row_wd_4) { table<0, true>(4); }
HARNESS(h_row_wd_8) { table<0, true>(8); }
HARNESS(h_slot_4) { table<1, false>(4); }
HARNESS(h_slot_8) { table<1, false>(8); }
HARNESS(h_slot_wd_4) { table<1, true>(4); }
HARNESS(h_slot_wd_8) { table<1, true>(8); }
HARNESS(h_ptr_8) { table<2, false>(8); }
HARNESS(h_ptr_wd_8) { table<2, true>(8); }
// long probe sequences: the watchdog is consulted, and without it firing the result is that of the plain variant
HARNESS(h_watchdog) {
  enum { L = 104 };
  static int64_t buf[L * 2];
  g_fixed = true;
  int layout = sym_choose("layout", 0, 2);
  int p = sym_choose("at", 0, L - 1);
  bool empty = sym_choose("empty", 0, 1);
  g_wd_fire = sym_choose("fire", 0, 1);
  int64_t key = sym_i64("key");
  sym_assume(key != EMPTY_KEY_64 && !(key >= 1000 && key < 1000 + L));
  for (int i = 0; i < L; ++i) {
    int64_t k = i == p ? (empty ? EMPTY_KEY_64 : key) : 1000 + i;
    if (layout == 0) { buf[2 * i] = k; buf[2 * i + 1] = 0; }
    else { buf[i] = k; buf[L + i] = 0; }
  }
  int64_t at = layout == 0 ? 2 * p + 1 : layout == 1 ? p : L + p;
  int64_t r;
  if (layout == 0) { int64_t* q = get_group_value_with_watchdog(buf, L, &key, 1, 8, 2); r = q ? q - buf : -1; }
  else if (layout == 1) r = get_group_value_columnar_slot_with_watchdog(buf, L, &key, 1, 8);
  else { int64_t* q = get_group_value_columnar_with_watchdog(buf, L, &key, 1); r = q ? q - buf : -1; }
  sym_observe(r);
  sym_assert(r == at || (r == -1 && g_wd_calls && g_wd_fire), "found unless interrupted");
  sym_assert(!(r == -1) || g_wd_fire, "a long probe sequence is not a failure");
  if (g_wd_calls) sym_cover("watchdog consulted");
}
// the real hash: depends on the key bytes alone, not on what follows them or where they are
HARNESS(h_hash) {
  int n = 4 * sym_choose("words", 1, 4), sh = sym_choose("shift", 0, 1) * 4;
  alignas(8) int8_t a[24], b[24];
  sym_make(a, 24, "a");
  sym_make(b, 24, "b");
  for (int i = 0; i < n; ++i) sym_assume(a[i] == b[i + sh]);
  for (int i = 0; i < n; ++i) b[i + sh] = a[i];
  uint32_t x = MurmurHash3_real(a, n, 0), y = MurmurHash3_real(b + sh, n, 0);
  sym_observe(x);
  sym_assert(x == y, "equal keys hash alike");
  uint64_t u = MurmurHash64A_real(a, n, 0), v = MurmurHash64A_real(b + sh, n, 0);
  sym_assert(u == v, "equal keys hash alike (64 bits)");
  sym_assert(MurmurHash1_real(a, n, 0) == MurmurHash1_real(b + sh, n, 0), "equal keys hash alike (variant 1)");
  sym_cover("hash");
}
