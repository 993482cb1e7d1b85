// @sources omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp @lib/hash_join_cpu.cpp omniscidb/QueryEngine/MurmurHash.cpp
// @flags -I$VERIF/stubs/thr
// @threads
// @bounds inner columns of up to 3 rows in up to 3 chunks (empty ones included), elements of 1, 2, 4 and 8 bytes (signed, unsigned, days), key ranges of 3 values and NULL, dictionary translation maps of 4 ids with any contents; every outer key of 64 bits; bucket sizes 1, 7, 86400; 1 to 3 threads with at most 2 preemptions at accesses to the table
// @assume the inner keys lie in the range the table was sized for; for bucketized tables all keys are bucket-aligned (as dates in days are); thread creation and tbb::parallel_for by a deterministic scheduler with sequentially consistent memory
#include "rtf.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.h"
#include <future>
enum { E = 3 };  // values of the range; one more slot for a translated NULL
struct Col {
  JoinChunk ch[3];
  int8_t data[3][4 * 8];
  JoinColumn jc;
  int n, sz;
  int64_t mn, null, b;
  int k[4];  // value index of row i, E for NULL
  int64_t value(int i) const { return mn + k[i] * b; }
};
static void store(int8_t* p, int sz, int64_t v) { memcpy(p, &v, sz); }
// N rows over chunks; every element concrete slot, symbolic base for 8-byte signed columns
static void column(Col& c, ColumnType t, int sz, int64_t mn, int64_t b, int n, bool nulls, bool pickKeys = false) {
  c.n = n; c.sz = sz; c.mn = mn; c.b = b;
  c.null = t == Unsigned ? (sz == 1 ? 255 : sz == 2 ? 65535 : (int64_t)INT32_MIN) : sz == 1 ? INT8_MIN : sz == 2 ? INT16_MIN : sz == 4 ? (int64_t)INT32_MIN : INT64_MIN;
  int c0 = sym_choose("chunk0", 0, n), c1 = sym_choose("chunk1", 0, n - c0);
  int sizes[3] = {c0, c1, n - c0 - c1}, row = 0;
  for (int i = 0; i < 3; ++i) {
    c.ch[i].col_buff = c.data[i];
    c.ch[i].num_elems = sizes[i];
    c.ch[i].row_id = row;
    for (int j = 0; j < sizes[i]; ++j, ++row) {
      c.k[row] = sym_range("key", 0, nulls ? E : E - 1);
      if (pickKeys) c.k[row] = (int)sym_concretize((uint64_t)(uint32_t)c.k[row]);
      int64_t v = c.k[row] == E ? c.null : c.value(row);
      if (t == SmallDate && c.k[row] != E) v /= 86400;
      store(c.data[i] + j * sz, sz, v);
    }
  }
  c.jc.col_chunks_buff = (const int8_t*)c.ch;
  c.jc.col_chunks_buff_sz = sizeof c.ch;
  c.jc.num_chunks = 3;
  c.jc.num_elems = n;
  c.jc.elem_sz = sz;
}
enum { CANARY = 0x5a5a5a5a };
// ----- one table, one probe key: what the generated code sees
struct Probe {
  bool bw;
  int64_t mn, mx, null, tr, b;
  int64_t slot(int32_t* buff, int64_t q) const {
    int64_t p = (int64_t)buff;
    if (b != 1) return bw ? bucketized_hash_join_idx_bitwise(p, q, mn, mx, null, tr, b) : bucketized_hash_join_idx_nullable(p, q, mn, mx, null, b);
    if (bw) return hash_join_idx_bitwise(p, q, mn, mx, null, tr);
    return hash_join_idx_nullable(p, q, mn, mx, null);
  }
};
static int outerKey(const Col& c, int64_t& q) {  // slot index of the outer key, E: NULL, E+1: not among the values
  int k = sym_range("outer", 0, E + 1);
  if (k < E) q = c.mn + k * c.b;
  else if (k == E) q = c.null;
  else {
    q = sym_i64("outside");
    sym_assume(q != c.null && (q < c.mn || q > c.mn + (E - 1) * c.b));
  }
  return k;
}
static JoinColumnTypeInfo info(const Col& c, ColumnType t, bool bw) {
  return JoinColumnTypeInfo{(size_t)c.sz, c.mn, c.mn + (E - 1) * c.b, c.null, bw, c.mn + E * c.b, t};
}
static Probe probe(const Col& c, bool bw) { return Probe{bw, c.mn, c.mn + (E - 1) * c.b, c.null, c.mn + E * c.b, c.b}; }
static void initTable(int32_t* mem, int slots) {
  mem[0] = mem[1] = CANARY;
  mem[2 + slots] = mem[3 + slots] = CANARY;
  init_hash_join_buff(mem + 2, slots, -1);
}
static void guards(int32_t* mem, int slots) {
  sym_assert(mem[0] == CANARY && mem[1] == CANARY && mem[2 + slots] == CANARY && mem[3 + slots] == CANARY, "nothing outside the table is written");
}
struct FillArg { int32_t* buff; bool semi; JoinColumn* jc; const JoinColumnTypeInfo* ti; const int32_t* map; int t, n; int64_t b; };
// mode 0: fill_hash_join_buff, 1: bucketized, 2: bucketized_cpu
static int runFill(int mode, const FillArg& a) {
  if (mode == 2) return fill_hash_join_buff_bucketized_cpu(a.buff, -1, a.semi, *a.jc, *a.ti, a.map, a.b);
  std::vector<std::future<int>> f;
  for (int i = 0; i < a.n; ++i)
    f.push_back(std::async(std::launch::async, [=] {
      return mode == 1 ? fill_hash_join_buff_bucketized(a.buff, -1, a.semi, *a.jc, *a.ti, a.map, i, a.n, a.b)
                       : fill_hash_join_buff(a.buff, -1, a.semi, *a.jc, *a.ti, a.map, i, a.n);
    }));
  int err = 0;
  for (auto& x : f) { int e = x.get(); if (e) err = e; }
  return err;
}
static void checkOneToOne(const Col& c, bool bw, bool semi, int err, int32_t* buff) {
  bool dup = false;
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < i; ++j)
      if (c.k[i] == c.k[j] && (c.k[i] < E || bw)) dup = true;
  sym_assert(semi ? err == 0 : (err != 0) == dup, "an error exactly when two rows share a key");
  sym_observe(err != 0);
  if (err) { sym_cover("duplicates"); return; }
  int64_t q;
  int k = outerKey(c, q);
  int64_t r = probe(c, bw).slot(buff, q);
  bool any = false, hit = false;
  for (int i = 0; i < c.n; ++i)
    if (c.k[i] == k && (k < E || (k == E && bw))) { any = true; if (r == i) hit = true; }
  sym_observe(r);
  sym_assert(any ? hit : r == -1, "the probe finds a row with an equal key exactly if there is one");
  sym_cover("one to one");
}
static void oneToOne(ColumnType t, int sz, int64_t mn, int64_t b, int mode, int threads, int n, bool shared, bool nulls = true) {
  Col c;
  column(c, t, sz, mn, b, n, nulls);
  bool bw = sym_choose("bw", 0, 1), semi = sym_choose("semi", 0, 1);
  int slots = E + (bw ? 1 : 0);
  int32_t mem[E + 1 + 4];
  initTable(mem, slots);
  if (shared) sym_shared(mem + 2, slots * 4);
  JoinColumnTypeInfo ti = info(c, t, bw);
  int err = runFill(mode, FillArg{mem + 2, semi, &c.jc, &ti, nullptr, 0, threads, b});
  guards(mem, slots);
  checkOneToOne(c, bw, semi, err, mem + 2);
}
static int64_t anyMin() { return sym_range64("min", INT64_MIN + 1, INT64_MAX - 10 * 86400); }
HARNESS(h_oto_int64) { oneToOne(Signed, 8, anyMin(), 1, 0, 1, sym_choose("n", 0, 3), false); }
HARNESS(h_oto_int32) { const int64_t m[] = {INT32_MIN + 1, -1, 0, INT32_MAX - E + 1}; oneToOne(Signed, 4, m[sym_choose("m", 0, 3)], 1, 0, 1, 2, false); }
HARNESS(h_oto_int16) { const int64_t m[] = {INT16_MIN + 1, -1, 0, INT16_MAX - E + 1}; oneToOne(Signed, 2, m[sym_choose("m", 0, 3)], 1, 0, 1, 2, false); }
HARNESS(h_oto_int8) { const int64_t m[] = {INT8_MIN + 1, -1, 0, INT8_MAX - E + 1}; oneToOne(Signed, 1, m[sym_choose("m", 0, 3)], 1, 0, 1, 2, false); }
HARNESS(h_oto_uint8) { const int64_t m[] = {0, 126, 254 - E}; oneToOne(Unsigned, 1, m[sym_choose("m", 0, 2)], 1, 0, 1, 2, false); }
HARNESS(h_oto_uint16) { const int64_t m[] = {0, 32766, 65534 - E}; oneToOne(Unsigned, 2, m[sym_choose("m", 0, 2)], 1, 0, 1, 2, false); }
HARNESS(h_oto_days4) { const int64_t m[] = {-1, 0, 20000}; oneToOne(SmallDate, 4, 86400 * m[sym_choose("m", 0, 2)], 86400, 1, 1, 2, false); }
HARNESS(h_oto_days2) { const int64_t m[] = {-1, 0, INT16_MAX - E + 1, INT16_MIN + 1}; oneToOne(SmallDate, 2, 86400 * m[sym_choose("m", 0, 3)], 86400, 1, 1, 2, false); }
HARNESS(h_oto_bucket) { const int64_t b[] = {1, 7, 86400}; oneToOne(Signed, 8, anyMin(), b[sym_choose("b", 0, 2)], 1, 1, 2, false); }
HARNESS(h_oto_cpu) { const int64_t b[] = {1, 7}; oneToOne(Signed, 8, anyMin(), b[sym_choose("b", 0, 1)], 2, 1, sym_choose("n", 0, 3), false); }
HARNESS(h_oto_cpu_types) {
  int t = sym_choose("type", 0, 5);
  if (t == 0) oneToOne(Signed, 4, -1, 1, 2, 1, 2, false);
  else if (t == 1) oneToOne(Signed, 2, -1, 1, 2, 1, 2, false);
  else if (t == 2) oneToOne(Signed, 1, -1, 1, 2, 1, 2, false);
  else if (t == 3) oneToOne(Unsigned, 1, 126, 1, 2, 1, 2, false);
  else if (t == 4) oneToOne(Unsigned, 2, 32766, 1, 2, 1, 2, false);
  else oneToOne(SmallDate, 4, -86400, 86400, 2, 1, 2, false);
}
// schedules
// @entry h_oto_threads --preempt 2
HARNESS(h_oto_threads) { oneToOne(Signed, 8, 100, 1, 0, 2, 3, true, false); sym_cover("threads"); }
// @entry h_oto_cpu_threads --preempt 1
HARNESS(h_oto_cpu_threads) { oneToOne(Signed, 8, 100, 1, 2, 1, 2, true, false); }
// ----- one to many
static void checkOneToMany(const Col& c, bool bw, int slots, int32_t* buff) {
  int64_t q;
  int k = outerKey(c, q);
  Probe p = probe(c, bw);
  int64_t off = p.slot(buff, q);
  int64_t cnt = off >= 0 ? p.slot(buff + slots, q) : 0;
  int want = 0;
  for (int i = 0; i < c.n; ++i)
    if (c.k[i] == k && (k < E || (k == E && bw))) ++want;
  sym_observe(cnt);
  sym_assert(cnt == want, "as many matches as rows with an equal key");
  sym_assert(off >= -1 && off + cnt <= c.n, "the row list lies in the buffer");
  bool seen[4] = {false, false, false, false};
  for (int j = 0; j < (int)cnt; ++j) {
    int32_t r = buff[2 * slots + off + j];
    sym_assert(r >= 0 && r < c.n, "a row of the inner table");
    int ri = (int)sym_concretize((uint64_t)r);
    sym_assert(!seen[ri], "every row once");
    seen[ri] = true;
    sym_assert(c.k[ri] == k, "a row with an equal key");
  }
  sym_cover("one to many");
}
static void oneToMany(ColumnType t, int sz, int64_t mn, int64_t b, bool bucketized, int threads, int n, bool shared, bool nulls = true, bool pickKeys = true) {
  Col c;
  column(c, t, sz, mn, b, n, nulls, pickKeys);
  bool bw = sym_choose("bw", 0, 1);
  int slots = E + (bw ? 1 : 0), total = 2 * slots + n;
  int32_t mem[2 * (E + 1) + 3 + 4];
  mem[0] = mem[1] = mem[2 + total] = mem[3 + total] = CANARY;
  init_hash_join_buff(mem + 2, slots, -1);
  if (shared) sym_shared(mem + 2, total * 4);
  JoinColumnTypeInfo ti = info(c, t, bw);
  HashEntryInfo he;
  he.hash_entry_count = (E - 1 + (bw ? 1 : 0)) * b + 1;
  he.bucket_normalization = b;
  if (bucketized) fill_one_to_many_hash_table_bucketized(mem + 2, he, -1, c.jc, ti, nullptr, threads);
  else fill_one_to_many_hash_table(mem + 2, he, -1, c.jc, ti, nullptr, threads);
  guards(mem, total);
  checkOneToMany(c, bw, slots, mem + 2);
}
HARNESS(h_otm_int64) { oneToMany(Signed, 8, anyMin(), 1, false, 1, sym_choose("n", 1, 3), false); }
HARNESS(h_otm_int32) { oneToMany(Signed, 4, -1, 1, false, 2, 2, false); }
HARNESS(h_otm_bucket) { const int64_t b[] = {1, 7, 86400}; oneToMany(Signed, 8, anyMin(), b[sym_choose("b", 0, 2)], true, 2, 2, false); }
HARNESS(h_otm_days) { oneToMany(SmallDate, 4, -86400, 86400, true, 1, 2, false, true, false); }
// @entry h_otm_threads --preempt 2
HARNESS(h_otm_threads) { oneToMany(Signed, 8, 100, 1, false, 2, 2, true, false); }
// @entry t_otm_threads --preempt 2
HARNESS(t_otm_threads) { oneToMany(Signed, 8, 100, 1, false, 2, 3, true, false); }
// @entry t_oto_threads --preempt 3
HARNESS(t_oto_threads) { oneToOne(Signed, 8, 100, 1, 0, 3, 3, true, true); }
// ----- keys translated between dictionaries
template <int MODE> static void translated() {
  Col c;
  int64_t vals[2];
  int32_t map[4];
  for (int i = 0; i < 4; ++i) map[i] = sym_range("map", -1, 3);  // outer range is 1..3
  c.mn = 1; c.b = 1; c.sz = 4; c.null = INT32_MIN; c.n = 2;
  int32_t raw[2];
  for (int i = 0; i < 2; ++i) {
    int id = sym_range("id", -1, 3);
    raw[i] = id < 0 ? INT32_MIN : id;
    c.k[i] = id < 0 ? E : map[id] >= 1 ? map[id] - 1 : E + 2;  // E+2: no counterpart
  }
  JoinChunk ch{(const int8_t*)raw, 2, 0};
  c.jc = JoinColumn{(const int8_t*)&ch, sizeof ch, 1, 2, 4};
  bool bw = sym_choose("bw", 0, 1);
  int slots = E + (bw ? 1 : 0);
  JoinColumnTypeInfo ti = info(c, Signed, bw);
  int32_t mem[2 * (E + 1) + 3 + 4];
  int total = MODE == 3 ? 2 * slots + 2 : slots;
  mem[0] = mem[1] = mem[2 + total] = mem[3 + total] = CANARY;
  init_hash_join_buff(mem + 2, slots, -1);
  int32_t* buff = mem + 2;
  if (MODE == 3) {
    HashEntryInfo he{(size_t)slots, 1};
    fill_one_to_many_hash_table(buff, he, -1, c.jc, ti, map, 1);
    guards(mem, total);
    checkOneToMany(c, bw, slots, buff);
  } else {
    int err = runFill(MODE, FillArg{buff, false, &c.jc, &ti, map, 0, 1, 1});
    guards(mem, total);
    if (c.k[0] == E + 2 || c.k[1] == E + 2) sym_cover("untranslatable");
    int k0 = c.k[0], k1 = c.k[1];
    if (k0 == E + 2) c.k[0] = -1;
    if (k1 == E + 2) c.k[1] = -2;
    checkOneToOne(c, bw, false, err, buff);
  }
}
HARNESS(h_translate) { translated<0>(); }
HARNESS(h_translate_bucket) { translated<1>(); }
HARNESS(h_translate_cpu) { translated<2>(); }
HARNESS(h_translate_many) { translated<3>(); }
// ----- probe functions alone, every 64-bit key and range
HARNESS(k_probe) {
  int64_t q = sym_i64("key"), mn = sym_i64("min"), mx = sym_i64("max"), null = sym_i64("null");
  sym_assume(mn <= mx && (null < mn || null > mx));
  int64_t r = rowid_hash_join_idx(q, mn, mx), rn = rowid_hash_join_idx_nullable(q, mn, mx, null);
  sym_observe(r);
  sym_assume(mn >= 0);
  bool in = q >= mn && q <= mx;
  sym_assert(r == (in ? q : -1), "row id probe");
  sym_assert(rn == (in && q != null ? q : -1), "row id probe with NULL");
  // address arithmetic for large tables: the table is placed so that the slot falls on a small buffer
  int32_t cell = sym_i32("cell");
  sym_assume(in && mx - mn < (int64_t(1) << 40));
  int64_t base = (int64_t)&cell - (q - mn) * 4;
  sym_assert(hash_join_idx(base, q, mn, mx) == cell, "slot address");
  sym_assert(hash_join_idx_nullable(base, q, mn, mx, null) == cell, "slot address, nullable");
  sym_assert(hash_join_idx_bitwise(base, q, mn, mx, null, mx + 1) == cell, "slot address, bitwise");
}
template <class T, class F> static void trans(F f) {
  T k = symT<T>("key"), n = symT<T>("null");
  int64_t tr = sym_i64("translated");
  sym_assert(f(k, n, tr) == (k == n ? tr : (int64_t)k), "NULL key translation");
}
HARNESS(k_translate_null) {
  trans<int8_t>(translate_null_key_int8_t); trans<int16_t>(translate_null_key_int16_t);
  trans<int32_t>(translate_null_key_int32_t); trans<int64_t>(translate_null_key_int64_t);
}
