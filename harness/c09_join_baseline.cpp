// @sources omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp @lib/murmur_real.cpp
// @flags -I$VERIF/stubs/thr -iquote $VERIF/stubs/hash
// @threads
// @opts --merge compare_to_key --merge bcmp --merge memcmp
// @bounds inner tables of up to 2 rows (thorough: 3), 1 or 2 key columns of 4 or 8 bytes, hash tables of 1 to 3 entries, every key value, NULLs, every hash function, dictionary translation; slot addresses for tables of up to 2^31 bytes (the builder's limit); 2 threads with at most 2 preemptions at accesses to the table
// @assume no first key component equals the two reserved marker values; the hash is an arbitrary deterministic function of the key bytes (the build side and the probe side are shown to use the same one); sequentially consistent memory
#include "rtf.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinKeyHandlers.h"
#include "QueryEngine/MurmurHash1Inl.h"
#include <future>
#ifdef THOROUGH
enum { MAXR = 3 };
#else
enum { MAXR = 2 };
#endif
static int8_t g_keys[8][16];
static uint32_t g_hash[8];
static int g_nk, g_len;
static uint32_t g_mod;
static bool g_one;
extern "C" uint32_t MurmurHash1(const void* key, int len, const uint32_t seed) {
  if (g_one) return g_hash[0];
  if (g_nk) sym_assert(len == g_len, "every lookup hashes the same number of bytes");
  g_len = len;
  for (int i = 0; i < g_nk; ++i)
    if (!memcmp(g_keys[i], key, len)) return g_hash[i];
  memcpy(g_keys[g_nk], key, len);
  uint32_t h = sym_choose("hash", 0, g_mod - 1);
  g_hash[g_nk++] = h;
  return h;
}
extern "C" uint32_t MurmurHash1_real(const void* key, int len, const uint32_t seed);
template <class T> struct Inner {
  T k[MAXR][2];      // key components
  bool skip[MAXR];   // the row takes no part in the join
  int n, nc;
  T data[2][2][MAXR];
  JoinChunk ch[2][2];
  std::vector<JoinColumn> jc;
  std::vector<JoinColumnTypeInfo> ti;
};
template <class T> static T mark() { return std::numeric_limits<T>::max(); }
// small: key components from two values (for the thread schedules)
template <class T> static void inner(Inner<T>& in, int n, int nc, bool small, bool bw) {
  in.n = n; in.nc = nc;
  T v[MAXR][2];
  for (int i = 0; i < n; ++i) {
    in.skip[i] = false;
    for (int c = 0; c < nc; ++c) {
      v[i][c] = small ? (T)sym_choose("v", 0, 1) : symT<T>("v");
      if (c == 0) sym_assume(v[i][c] != mark<T>() && v[i][c] != (T)(mark<T>() - 1));
      in.k[i][c] = v[i][c];
      if (!bw && v[i][c] == sqlNull<T>()) in.skip[i] = true;
    }
  }
  for (int c = 0; c < nc; ++c) {
    int cut = small || c + 1 < nc ? 0 : sym_choose("cut", 0, n), r = 0;
    for (int h = 0; h < 2; ++h) {
      int m = h ? n - cut : cut;
      in.ch[c][h] = JoinChunk{(const int8_t*)in.data[c][h], (size_t)m, (size_t)r};
      for (int j = 0; j < m; ++j) in.data[c][h][j] = v[r++][c];
    }
    in.jc.push_back(JoinColumn{(const int8_t*)in.ch[c], sizeof in.ch[c], 2, (size_t)n, sizeof(T)});
    in.ti.push_back(JoinColumnTypeInfo{sizeof(T), 0, 0, (int64_t)sqlNull<T>(), bw, 0, Signed});
  }
}
template <class T> static bool eq(const T* a, const T* b, int nc) { for (int c = 0; c < nc; ++c) if (a[c] != b[c]) return false; return true; }
enum { ENT = 3, CAN = 0x33 };
template <class T> static int fillAll(Inner<T>& in, int8_t* buff, int entries, bool val, bool semi, int threads, const int32_t* const* maps) {
  GenericKeyHandler kh(in.nc, true, in.jc.data(), in.ti.data(), maps);
  auto one = [&](int t) {
    return sizeof(T) == 4 ? fill_baseline_hash_join_buff_32(buff, entries, -1, semi, in.nc, val, &kh, in.n, t, threads)
                          : fill_baseline_hash_join_buff_64(buff, entries, -1, semi, in.nc, val, &kh, in.n, t, threads);
  };
  if (threads == 1) return one(0);
  std::vector<std::future<int>> f;
  for (int t = 0; t < threads; ++t) f.push_back(std::async(std::launch::async, [&one, t] { return one(t); }));
  int err = 0;
  for (auto& x : f) { int e = x.get(); if (e && !err) err = e; if (e == -2) err = -2; }
  return err;
}
template <class T> static void oneToOne(int nc, int threads, bool small) {
  Inner<T> in;
  g_nk = 0;
  int n = small ? 2 : sym_choose("n", 1, MAXR), entries = sym_choose("entries", 1, ENT);
  g_mod = entries;
  bool bw = small ? false : sym_choose("bw", 0, 1), semi = sym_choose("semi", 0, 1);
  inner<T>(in, n, nc, small, bw);
  int bytes = entries * (nc + 1) * sizeof(T);
  alignas(8) int8_t mem[8 + ENT * 3 * 8 + 8];
  memset(mem, CAN, sizeof mem);
  int8_t* buff = mem + 8;
  if (sizeof(T) == 4) init_baseline_hash_join_buff_32(buff, entries, nc, true, -1);
  else init_baseline_hash_join_buff_64(buff, entries, nc, true, -1);
  if (small) sym_shared(buff, bytes);
  int err = fillAll(in, buff, entries, true, semi, threads, nullptr);
  int distinct = 0;
  bool dup = false;
  for (int i = 0; i < n; ++i) {
    if (in.skip[i]) continue;
    bool seen = false;
    for (int j = 0; j < i; ++j)
      if (!in.skip[j] && eq(in.k[i], in.k[j], nc)) seen = true;
    if (seen) dup = true; else ++distinct;
  }
  sym_observe(err);
  if (distinct > entries) { sym_assert(err != 0, "an overfull table is reported"); sym_cover("overfull"); return; }
  if (dup && !semi) { sym_assert(err == -1, "duplicate keys are reported"); sym_cover("duplicate"); return; }
  sym_assert(err == 0, "the table is built");
  alignas(8) T q[2];
  int pickRow = sym_choose("pick", 0, n);
  for (int c = 0; c < nc; ++c) {
    q[c] = pickRow < n ? in.k[pickRow][c] : small ? (T)sym_choose("q", 0, 1) : symT<T>("q");
    if (c == 0) sym_assume(q[c] != mark<T>() && q[c] != (T)(mark<T>() - 1));
    if (!bw) sym_assume(q[c] != sqlNull<T>());  // the generated code skips NULL keys
  }
  int64_t r = sizeof(T) == 4 ? baseline_hash_join_idx_32(buff, (int8_t*)q, nc * sizeof(T), entries) : baseline_hash_join_idx_64(buff, (int8_t*)q, nc * sizeof(T), entries);
  bool any = false, hit = false;
  for (int i = 0; i < n; ++i)
    if (!in.skip[i] && eq(in.k[i], q, nc)) { any = true; if (r == i) hit = true; }
  sym_observe(r);
  sym_assert(any ? hit : r < 0, "the probe finds a row with an equal key exactly if there is one");
  for (int i = 0; i < 8; ++i) sym_assert(mem[i] == CAN && buff[bytes + i] == CAN, "nothing outside the table is written");
  if (any) sym_cover("found"); else sym_cover("not found");
}
HARNESS(h_oto32_1) { oneToOne<int32_t>(1, 1, false); }
HARNESS(h_oto32_2) { oneToOne<int32_t>(2, 1, false); }
HARNESS(h_oto64_1) { oneToOne<int64_t>(1, 1, false); }
HARNESS(h_oto64_2) { oneToOne<int64_t>(2, 1, false); }
HARNESS(h_oto64_threads) { oneToOne<int64_t>(2, 2, true); }
HARNESS(h_oto32_threads) { oneToOne<int32_t>(1, 2, true); }
// ----- one to many
template <class T> static void oneToMany(int nc, int threads, bool small) {
  Inner<T> in;
  g_nk = 0;
  int n = small ? 2 : sym_choose("n", 1, MAXR), entries = sym_choose("entries", 2, ENT);
  g_mod = entries;
  bool bw = small ? false : sym_choose("bw", 0, 1);
  inner<T>(in, n, nc, small, bw);
  alignas(8) int8_t dict[ENT * 2 * 8];
  if (sizeof(T) == 4) init_baseline_hash_join_buff_32(dict, entries, nc, false, -1);
  else init_baseline_hash_join_buff_64(dict, entries, nc, false, -1);
  if (small) sym_shared(dict, entries * nc * sizeof(T));
  int err = fillAll(in, dict, entries, false, false, threads, nullptr);
  int distinct = 0;
  for (int i = 0; i < n; ++i) {
    bool seen = in.skip[i];
    for (int j = 0; j < i; ++j)
      if (!in.skip[j] && eq(in.k[i], in.k[j], nc)) seen = true;
    distinct += !seen;
  }
  if (distinct > entries) { sym_assert(err != 0, "an overfull table is reported"); return; }
  sym_assert(err == 0, "the key table is built");
  int total = 2 * entries + n;
  int32_t mem[2 * ENT + MAXR + 4];
  mem[0] = mem[1] = mem[2 + total] = mem[3 + total] = 0x5a5a5a5a;
  int32_t* buff = mem + 2;
  for (int i = 0; i < total; ++i) buff[i] = -1;
  if (small) sym_shared(buff, total * 4);
  std::vector<const int32_t*> maps(nc, nullptr);
  if (sizeof(T) == 4) fill_one_to_many_baseline_hash_table_32(buff, (const int32_t*)dict, entries, -1, nc, in.jc, in.ti, maps, threads);
  else fill_one_to_many_baseline_hash_table_64(buff, (const int64_t*)dict, entries, -1, nc, in.jc, in.ti, maps, threads);
  sym_assert(mem[0] == 0x5a5a5a5a && mem[1] == 0x5a5a5a5a && mem[2 + total] == 0x5a5a5a5a && mem[3 + total] == 0x5a5a5a5a, "nothing outside the buffer is written");
  alignas(8) T q[2];
  int pickRow = sym_choose("pick", 0, n);
  for (int c = 0; c < nc; ++c) {
    q[c] = pickRow < n ? in.k[pickRow][c] : small ? (T)sym_choose("q", 0, 1) : symT<T>("q");
    if (c == 0) sym_assume(q[c] != mark<T>() && q[c] != (T)(mark<T>() - 1));
    if (!bw) sym_assume(q[c] != sqlNull<T>());
  }
  int64_t e;
  if constexpr (sizeof(T) == 4) e = get_composite_key_index_32(q, nc, (const int32_t*)dict, entries);
  else e = get_composite_key_index_64(q, nc, (const int64_t*)dict, entries);
  sym_observe(e);
  int want = 0;
  for (int i = 0; i < n; ++i) if (!in.skip[i] && eq(in.k[i], q, nc)) ++want;
  sym_assert(want ? e >= 0 && e < entries : e == -1, "a key is found exactly if a row has it");
  if (e < 0) { sym_cover("absent"); return; }
  int ei = (int)sym_concretize((uint64_t)e), off = (int)sym_concretize((uint64_t)(uint32_t)buff[ei]), cnt = (int)sym_concretize((uint64_t)(uint32_t)buff[entries + ei]);
  sym_assert(cnt == want && off >= 0 && off + cnt <= n, "as many matches as rows with an equal key");
  bool seen[MAXR] = {};
  for (int j = 0; j < cnt; ++j) {
    int r = (int)sym_concretize((uint64_t)(uint32_t)buff[2 * entries + off + j]);
    sym_assert(r >= 0 && r < n, "a row of the inner table");
    sym_assert(!seen[r] && !in.skip[r] && eq(in.k[r], q, nc), "every row with an equal key once");
    seen[r] = true;
  }
  sym_cover("matches");
}
HARNESS(h_otm32_1) { oneToMany<int32_t>(1, 1, false); }
HARNESS(h_otm32_2) { oneToMany<int32_t>(2, 1, false); }
HARNESS(h_otm64_1) { oneToMany<int64_t>(1, 1, false); }
HARNESS(h_otm64_2) { oneToMany<int64_t>(2, 1, false); }
// @entry h_otm64_threads --preempt 1
HARNESS(h_otm64_threads) { oneToMany<int64_t>(2, 2, true); }
// ----- keys translated between dictionaries
HARNESS(h_translate) {
  int32_t map[3], raw[2];
  for (int i = 0; i < 3; ++i) map[i] = sym_range("map", -1, 2);
  Inner<int32_t> in;
  in.n = 2; in.nc = 1;
  int32_t key[2];
  g_nk = 0; g_mod = 2;
  for (int i = 0; i < 2; ++i) {
    int id = sym_choose("id", -1, 2);
    raw[i] = id < 0 ? INT32_MIN : id;
    in.skip[i] = id < 0 || map[id] < 0;
    key[i] = id < 0 ? 0 : map[id];
  }
  JoinChunk ch{(const int8_t*)raw, 2, 0};
  in.jc.push_back(JoinColumn{(const int8_t*)&ch, sizeof ch, 1, 2, 4});
  in.ti.push_back(JoinColumnTypeInfo{4, 0, 2, INT32_MIN, false, 0, Signed});
  alignas(8) int8_t buff[2 * 8];
  init_baseline_hash_join_buff_32(buff, 2, 1, true, -1);
  const int32_t* maps[1] = {map};
  int err = fillAll(in, buff, 2, true, true, 1, maps);
  sym_assert(err == 0, "built");
  int32_t q = sym_range("q", 0, 2);
  int64_t r = baseline_hash_join_idx_32(buff, (int8_t*)&q, 4, 2);
  bool any = false, hit = false;
  for (int i = 0; i < 2; ++i) if (!in.skip[i] && key[i] == q) { any = true; if (r == i) hit = true; }
  sym_observe(r);
  sym_assert(any ? hit : r < 0, "matching is by the translated id");
  sym_cover("translated");
}
// ----- both sides hash alike, and slot addresses of large tables
HARNESS(h_same_hash) {
  int n = 4 * sym_choose("words", 1, 4);
  alignas(8) int8_t a[16];
  sym_make(a, 16, "a");
  uint32_t x = MurmurHash1Impl_real(a, n, 0), y = MurmurHash1_real(a, n, 0);
  sym_observe(x);
  sym_assert(x == y, "the build side and the probe side use one hash function");
  sym_cover("hash");
}
template <class T> static void far() {
  g_one = true;
  int nc = sym_choose("nc", 1, 2);
  uint32_t h = sym_u32("h");
  uint64_t esz = (nc + 1) * sizeof(T);
  sym_assume(h < INT32_MAX / esz);
  g_hash[0] = h;
  int64_t entries = INT32_MAX / esz;
  alignas(8) T row[3] = {mark<T>(), mark<T>(), (T)-1};
  row[nc] = (T)-1;
  T k[2];
  alignas(8) T col[2][1];
  JoinChunk ch[2];
  Inner<T> in;
  in.n = 1; in.nc = nc;
  for (int c = 0; c < nc; ++c) {
    k[c] = col[c][0] = symT<T>("k");
    sym_assume(k[c] != mark<T>() && k[c] != (T)(mark<T>() - 1) && k[c] != sqlNull<T>());
    ch[c] = JoinChunk{(const int8_t*)col[c], 1, 0};
    in.jc.push_back(JoinColumn{(const int8_t*)&ch[c], sizeof ch[c], 1, 1, sizeof(T)});
    in.ti.push_back(JoinColumnTypeInfo{sizeof(T), 0, 0, (int64_t)sqlNull<T>(), false, 0, Signed});
  }
  int8_t* base = (int8_t*)row - h * esz;
  int err = fillAll(in, base, entries, true, false, 1, nullptr);
  sym_assert(err == 0 && row[nc] == 0 && eq(row, k, nc), "the row goes to its slot");
  int64_t r = sizeof(T) == 4 ? baseline_hash_join_idx_32(base, (int8_t*)k, nc * sizeof(T), entries) : baseline_hash_join_idx_64(base, (int8_t*)k, nc * sizeof(T), entries);
  sym_assert(r == 0, "and is found there");
  int64_t e;
  uint64_t ksz = nc * sizeof(T);
  if constexpr (sizeof(T) == 4) e = get_composite_key_index_32(k, nc, (const int32_t*)((int8_t*)row - h * ksz), entries);
  else e = get_composite_key_index_64(k, nc, (const int64_t*)((int8_t*)row - h * ksz), entries);
  sym_assert(e == h, "key table index");
  sym_cover("far");
}
HARNESS(h_far32) { far<int32_t>(); }
HARNESS(h_far64) { far<int64_t>(); }
