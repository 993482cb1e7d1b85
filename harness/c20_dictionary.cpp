// @sources omniscidb/StringDictionary/StringDictionary.cpp
// @flags -I$VERIF/stubs/dict -include $VERIF/stubs/strm.h -include $VERIF/stubs/Logger/Logger.h -include $VERIF/stubs/dict/thread.h
// @bounds dictionaries of up to 4 strings of one byte of every value (thorough: adding 4 of up to 2 bytes), with and without stored hashes, starting from the smallest table (so that it grows twice), filled one by one, in bulk or by the parallel bulk load with any split; one derived dictionary of up to 2 strings of every value on a base of 2, with every generation (searches, copies and translation: 3 entries out of 4 fixed words, the pattern or the destination of every byte value); ids of 8, 16 and 32 bits, the 8-bit limit with bases of 252 to 256 entries; searches repeated after an addition
// @opts --max-table 1
// @assume LIKE, regular expressions and string comparison replaced by stand-ins (C18 and C19 decide what they compute); a parallel section has at most two parts; page size 1
#include "Shared/InlineNullValues.h"
#include "StringDictionary/StringDictionary.h"
#include "sym.h"
#include <string>
#include <vector>
typedef std::string S;
unsigned g_cpu_threads_override = 2;
extern bool g_enable_stringdict_parallel;
namespace omnisci { int get_page_size() { return 1; } }
// stand-ins that depend on everything they are given
extern "C" bool string_like_simple(const char* s, const int32_t n, const char* p, const int32_t m) { return (s[0] ^ p[0]) & 1; }
extern "C" bool string_ilike_simple(const char* s, const int32_t n, const char* p, const int32_t m) { return (s[0] ^ p[0]) & 2; }
extern "C" bool string_like(const char* s, const int32_t n, const char* p, const int32_t m, const char e) { return (s[0] ^ p[0] ^ e) & 4; }
extern "C" bool string_ilike(const char* s, const int32_t n, const char* p, const int32_t m, const char e) { return (s[0] ^ p[0] ^ e) & 8; }
extern "C" bool regexp_like(const char* s, const int32_t n, const char* p, const int32_t m, const char e) { return (s[0] ^ p[0] ^ e) & 16; }
extern "C" bool string_eq(const char* a, const int32_t n, const char* b, const int32_t m) { if (n != m) return false; for (int i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
extern "C" bool string_lt(const char* a, const int32_t n, const char* b, const int32_t m) {
  for (int i = 0; i < n && i < m; i++) if (a[i] != b[i]) return (uint8_t)a[i] < (uint8_t)b[i];
  return n < m;
}
namespace std { size_t _Hash_bytes(const void*, size_t, size_t) { return 1; } }
static S str(const char* n, int lo, int hi) {
  int len = sym_choose("length", lo, hi);
  S s(len, 'x');
  for (int i = 0; i < len; i++) s[i] = (char)sym_u8(n);
  return s;
}
static bool same(const S& a, const S& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
#ifdef THOROUGH
static const int MAXL = 2, NS = 4;
#else
static const int MAXL = 1, NS = 3;
#endif
static const int32_t NUL = inline_int_null_value<int32_t>();
// ids of a sequence of strings in the order of their first appearance; the id of a NULL (empty) string is the NULL value
static std::vector<int64_t> expected(const std::vector<S>& v, int64_t first, std::vector<S>& all, int64_t null) {
  std::vector<int64_t> r;
  for (auto& s : v) {
    int64_t id = -1;
    if (s.empty()) { r.push_back(null); continue; }
    for (size_t i = 0; i < all.size() && id < 0; i++) if (same(all[i], s)) id = first + i;
    if (id < 0) { id = first + all.size(); all.push_back(s); }
    r.push_back(id);
  }
  return r;
}
static void contents(StringDictionary& d, const std::vector<S>& all, int64_t first) {
  ASSERTM(d.entryCount() == first + all.size() && d.storageEntryCount() == all.size(), "as many entries as distinct strings");
  for (size_t i = 0; i < all.size(); i++) {
    ASSERTM(same(d.getString(first + i), all[i]), "the id gives back its string");
    auto b = d.getStringBytes(first + i);
    ASSERTM(b.second == all[i].size() && !memcmp(b.first, all[i].data(), b.second), "the id gives back its bytes");
    ASSERTM(d.getIdOfString(all[i]) == first + (int64_t)i, "the string gives back its id");
  }
}
HARNESS(h_add) {
  StringDictionary d(DictRef(1, 2), sym_choose("stored hashes", 0, 1), 2);
  std::vector<S> v, all;
  std::vector<int64_t> got;
  for (int i = 0; i < NS; i++) { v.push_back(str("string", i == 1 ? 0 : 1, MAXL)); got.push_back(d.getOrAdd(v[i])); }
  auto e = expected(v, 0, all, NUL);
  if (all.size() == NS) sym_cover("all different");
  if (all.size() == 1) sym_cover("all the same");
  for (int i = 0; i < NS; i++) ASSERTM(got[i] == e[i], "one id per distinct string, in order");
  contents(d, all, 0);
  S x = str("other", 1, 1);
  int64_t want = -1;
  for (size_t i = 0; i < all.size(); i++) if (same(all[i], x)) want = i;
  ASSERTM(d.getIdOfString(x) == want, "other strings are not found");
  ASSERTM(d.getString(NUL).empty(), "NULL");
}
template <class T> static void bulk(bool par) {
  g_enable_stringdict_parallel = par;
  StringDictionary d(DictRef(1, 2), sym_choose("stored hashes", 0, 1), 2);
  std::vector<S> v, all, w;
  if (sym_choose("already one", 0, 1)) { w.push_back(S("c")); d.getOrAdd(w[0]); expected(w, 0, all, 0); }
  for (int i = 0; i < 3; i++) v.push_back(i == 1 && sym_choose("empty", 0, 1) ? S() : str("string", 1, 1));
  T ids[3];
  d.getOrAddBulk(v, ids);
  auto e = expected(v, 0, all, inline_int_null_value<T>());
  for (int i = 0; i < 3; i++) ASSERTM((int64_t)ids[i] == (int64_t)(T)e[i], "bulk load: one id per distinct string, in order");
  ASSERTM(d.entryCount() == all.size() && d.storageEntryCount() == all.size(), "as many entries as distinct strings");
  for (size_t i = 0; i < all.size(); i++) ASSERTM(same(d.getString(i), all[i]), "the id gives back its string");
  int last = (int)all.size() - 1;
  ASSERTM(d.getIdOfString(all[last]) == last, "the string gives back its id");
  if (all.size() > 2) sym_cover("table grows in a bulk load");
}
HARNESS(h_bulk8) { bulk<uint8_t>(false); }
HARNESS(h_bulk32) { bulk<int32_t>(false); }
HARNESS(h_bulk16_parallel) { bulk<uint16_t>(true); }
HARNESS(h_bulk32_parallel) { bulk<int32_t>(true); }
struct Two { std::shared_ptr<StringDictionary> base; std::vector<S> b, visible; int64_t g; };
static Two layers(int nb) {
  Two t;
  bool mat = sym_choose("stored hashes", 0, 1);
  t.base = std::make_shared<StringDictionary>(DictRef(1, 2), mat, 2);
  std::vector<S> v;
  for (int i = 0; i < nb; i++) { v.push_back(str("base string", 1, 1)); t.base->getOrAdd(v[i]); }
  expected(v, 0, t.b, NUL);
  t.g = sym_choose("base generation", 0, nb);
  sym_assume(t.g <= (int64_t)t.b.size());
  t.visible.assign(t.b.begin(), t.b.begin() + t.g);
  return t;
}
static const char* const words[] = {"c", "m", "h", "ma"};
static S word(const char* n) { return S(words[sym_choose(n, 0, 3)]); }
static Two fixedLayers() {
  Two t;
  t.base = std::make_shared<StringDictionary>(DictRef(1, 2), sym_choose("stored hashes", 0, 1), 2);
  t.b = {S("m"), S("c")};
  for (auto& s : t.b) t.base->getOrAdd(s);
  t.g = sym_choose("base generation", 0, 2);
  t.visible.assign(t.b.begin(), t.b.begin() + t.g);
  return t;
}
HARNESS(h_derived) {
  Two t = layers(2);
  StringDictionary d(t.base, t.g, sym_choose("derived stored hashes", 0, 1));
  std::vector<S> v, all = t.visible;
  int64_t got[2];
  for (int i = 0; i < 2; i++) { v.push_back(str("string", 1 - i, 1)); got[i] = d.getOrAdd(v[i]); }
  auto e = expected(v, 0, all, NUL);
  for (int i = 0; i < 2; i++) ASSERTM(got[i] == e[i], "derived: the id of the base or a new one");
  if ((int)all.size() == t.g + 2) sym_cover("two new strings");
  ASSERTM(d.entryCount() == all.size(), "entries of both");
  for (size_t i = 0; i < all.size(); i++) { ASSERTM(same(d.getString(i), all[i]), "the id gives back its string, in both layers"); ASSERTM(d.getIdOfString(all[i]) == (int64_t)i, "the string gives back its id, in both layers"); }
  ASSERTM(t.base->entryCount() == t.b.size(), "the base is unchanged");
}
template <class T> static void derivedBulk(bool par) {
  g_enable_stringdict_parallel = par;
  Two t = fixedLayers();
  StringDictionary d(t.base, t.g, sym_choose("derived stored hashes", 0, 1));
  std::vector<S> v, all = t.visible;
  v.push_back(str("string", 1, 1));
  if (sym_choose("empty", 0, 1)) v.push_back(S());
  v.push_back(str("string", 1, 1));
  T ids[3];
  d.getOrAddBulk(v, ids);
  auto e = expected(v, 0, all, inline_int_null_value<T>());
  for (size_t i = 0; i < v.size(); i++) ASSERTM((int64_t)ids[i] == (int64_t)(T)e[i], "derived bulk load: the id of the base or a new one");
  ASSERTM(d.entryCount() == all.size(), "entries of both");
  for (size_t i = 0; i < all.size(); i++) ASSERTM(same(d.getString(i), all[i]), "the id gives back its string, in both layers");
  if ((int64_t)all.size() == t.g + 2) sym_cover("two new strings in a derived bulk load");
}
// look up in bulk, with every generation
template <class T> static void lookup() {
  Two t = fixedLayers();
  bool derived = sym_choose("derived", 0, 1);
  auto d = derived ? std::make_shared<StringDictionary>(t.base, t.g) : t.base;
  std::vector<S> all = derived ? t.visible : t.b, x{word("string")};
  d->getOrAdd(x[0]);
  expected(x, 0, all, 0);
  std::vector<S> q{str("query", 1, 1), S(), str("query", 1, 1)};
  if (sym_choose("no empty query", 0, 1)) q.erase(q.begin() + 1);
  int64_t g = sym_choose("generation", -1, (int)all.size());
  T out[3] = {7, 7, 7};
  size_t missing = d->getBulk(q, out, g), want = 0;
  // generation 0: nothing is there and the entries say so
  for (size_t i = 0; i < q.size(); i++) {
    int64_t id = -1;
    if (q[i].empty()) { ASSERTM(g == 0 || out[i] == inline_int_null_value<T>() || (derived && g <= t.g && t.g == 0), "NULL stays NULL"); continue; }
    for (size_t k = 0; k < all.size(); k++) if (same(all[k], q[i]) && (g < 0 || (int64_t)k < g)) id = k;
    want += id < 0;
    ASSERTM(out[i] == (T)id, "bulk lookup up to a generation");
  }
  ASSERTM(g == 0 || missing == want, "number of strings not found");
  sym_cover("bulk lookup");
}
HARNESS(h_lookup8) { lookup<uint8_t>(); }
HARNESS(h_lookup32) { lookup<int32_t>(); }
HARNESS(h_derived_bulk8) { derivedBulk<uint8_t>(false); }
HARNESS(h_derived_bulk32) { derivedBulk<int32_t>(false); }
HARNESS(h_derived_bulk8_parallel) { derivedBulk<uint8_t>(true); }
HARNESS(h_derived_bulk32_parallel) { derivedBulk<int32_t>(true); }
// ids that do not fit the column are refused
HARNESS(h_limit) {
  g_enable_stringdict_parallel = sym_choose("parallel", 0, 1);
  auto base = std::make_shared<StringDictionary>(DictRef(1, 2), true, 256);
  std::vector<S> many(256, S(2, 'q'));
  std::vector<int32_t> mid(256);
  for (int i = 0; i < 256; i++) { many[i][0] = (char)('0' + i / 16); many[i][1] = (char)('0' + i % 16); }
  base->getOrAddBulk(many, mid.data());
  int64_t g = sym_choose("entries of the base", 252, 256);
  StringDictionary d(base, g);
  std::vector<S> v{S("a"), S("b")};
  uint8_t ids[2];
  bool thrown = false;
  try { d.getOrAddBulk(v, ids); } catch (std::runtime_error&) { thrown = true; }
  sym_cover("limit");
  ASSERTM(thrown == (g + 1 > 254), "refused exactly when the id does not fit");
  if (!thrown) ASSERTM(ids[0] == g && ids[1] == g + 1, "ids below the limit");
}
static bool has(const std::vector<int32_t>& r, int32_t id) { int n = 0; for (auto x : r) n += x == id; return n == 1; }
static void check(const std::vector<int32_t>& r, const std::vector<S>& all, int64_t g, const S& p, int what, char esc) {
  size_t n = 0;
  for (size_t i = 0; i < all.size() && (int64_t)i < g; i++) {
    const char* a = all[i].c_str(); int al = all[i].size(), pl = p.size();
    bool lt = string_lt(a, al, p.c_str(), pl), eq = string_eq(a, al, p.c_str(), pl);
    bool want = what == 0 ? lt : what == 1 ? lt || eq : what == 2 ? !lt && !eq : what == 3 ? !lt : what == 4 ? eq : what == 5 ? !eq : what == 6 ? string_like_simple(a, al, p.c_str(), pl) : what == 7 ? string_ilike_simple(a, al, p.c_str(), pl) : what == 8 ? string_like(a, al, p.c_str(), pl, esc) : what == 9 ? string_ilike(a, al, p.c_str(), pl, esc) : regexp_like(a, al, p.c_str(), pl, esc);
    n += want;
    ASSERTM(has(r, i) == want, "exactly the ids of the strings that match");
  }
  ASSERTM(r.size() == n, "nothing beyond the strings that match");
}
static std::vector<int32_t> find(StringDictionary& d, const S& p, int what, int64_t g, char esc) {
  static const char* op[] = {"<", "<=", ">", ">=", "=", "<>"};
  return what < 6 ? d.getCompare(p, op[what], g) : what < 10 ? d.getLike(p, what == 7 || what == 9, what < 8, esc, g) : d.getRegexpLike(p, esc, g);
}
static void search(int lo, int hi) {
  StringDictionary d(DictRef(1, 2), false, 4);
  std::vector<S> v{S(words[sym_choose("strings", 0, 1)]), S(words[sym_choose("second string", 0, 2)])}, all;
  for (auto& s : v) d.getOrAdd(s);
  expected(v, 0, all, NUL);
  S p = str("pattern", 1, 1);
  int w = sym_choose("operator", lo, hi), w2 = sym_choose("second operator", lo, hi);
  char e = lo < 8 ? 'e' : (char)sym_u8("escape"), e2 = lo >= 8 && sym_choose("other escape", 0, 1) ? '\\' : e;
  int64_t g = sym_choose("generation", -1, 1);
  check(find(d, p, w, g, e), all, g < 0 ? 100 : g, p, w, e);
  // a second search, after an addition or not, must not see stale answers
  if (sym_choose("add", 0, 1)) { std::vector<S> x{S("h")}; if (sym_choose("in bulk", 0, 1)) { int32_t id; d.getOrAddBulk(x, &id); } else d.getOrAdd(x[0]); expected(x, 0, all, NUL); }
  S p2 = sym_choose("same pattern", 0, 1) ? p : S(1, 'm');
  int64_t g2 = sym_choose("second generation", 0, 1) ? -1 : 2;
  check(find(d, p2, w2, g2, e2), all, g2 < 0 ? 100 : g2, p2, w2, e2);
  sym_cover("second search");
}
HARNESS(h_compare) { search(0, 3); }
HARNESS(h_equals) { search(4, 5); }
HARNESS(h_order_equals) { search(3, 5); }
HARNESS(h_like) { search(6, 7); }
HARNESS(h_like_escape) { search(8, 9); }
HARNESS(h_regexp) { search(10, 10); }
HARNESS(h_derived_search) {
  Two t = fixedLayers();
  StringDictionary d(t.base, t.g);
  std::vector<S> v{word("string")}, all = t.visible;
  d.getOrAdd(v[0]);
  expected(v, 0, all, NUL);
  S p = str("pattern", 1, 1);
  int w = sym_choose("operator", 0, 10);
  char e = (char)sym_u8("escape");
  int64_t g = sym_choose("generation", -1, 3);
  check(find(d, p, w, g, e), all, g < 0 ? 100 : g, p, w, e);
  if (w < 6) { int w2 = sym_choose("second operator", 0, 5); check(find(d, p, w2, -1, e), all, 100, p, w2, e); }
}
HARNESS(h_copy) {
  Two t = fixedLayers();
  bool derived = sym_choose("derived", 0, 1);
  std::shared_ptr<StringDictionary> d = derived ? std::make_shared<StringDictionary>(t.base, t.g) : t.base;
  std::vector<S> all = derived ? t.visible : t.b;
  for (int k = 0; k < 2; k++) {
    std::vector<S> v{word("string")};
    d->getOrAdd(v[0]);
    expected(v, 0, all, NUL);
    int64_t g = sym_choose("generation", -1, 3);
    auto r = d->copyStrings(g);
    size_t n = g < 0 || g > (int64_t)all.size() ? all.size() : g;
    ASSERTM(r.size() == n, "all strings of the generation");
    for (size_t i = 0; i < n; i++) ASSERTM(same(r[i], all[i]), "strings in the order of their ids");
  }
}
struct CB : StringDictionary::StringCallback {
  std::vector<S>* all; size_t n = 0;
  void operator()(std::string const& s, int32_t const id) override { see(s, id); }
  void operator()(std::string_view const s, int32_t const id) override { see(S(s), id); }
  void see(const S& s, int32_t id) { ASSERTM(id == (int32_t)n && n < all->size() && same(s, (*all)[n]), "every string once, with its id"); n++; }
};
HARNESS(h_each) {
  Two t = layers(2);
  StringDictionary d(t.base, t.g);
  std::vector<S> v{str("string", 1, 1)}, all = t.visible;
  d.getOrAdd(v[0]);
  expected(v, 0, all, NUL);
  CB cb; cb.all = &all;
  int64_t g = sym_choose("generation", -1, 3);
  if (g < 0) d.eachStringSerially(cb); else d.eachStringSerially(g, cb);
  ASSERTM(cb.n == (g < 0 || g > (int64_t)all.size() ? all.size() : (size_t)g), "all strings of the generation");
}
HARNESS(h_translate) {
  Two t = fixedLayers();
  bool derived = sym_choose("derived source", 0, 1), un = sym_choose("union", 0, 1);
  std::shared_ptr<StringDictionary> src = derived ? std::make_shared<StringDictionary>(t.base, t.g) : t.base;
  std::vector<S> sall = derived ? t.visible : t.b, dall;
  if (derived) { std::vector<S> v{word("string")}; src->getOrAdd(v[0]); expected(v, 0, sall, NUL); }
  StringDictionary dst(DictRef(1, 3), sym_choose("dest stored hashes", 0, 1), 2);
  int nd = sym_choose("strings of the destination", 0, 2);
  std::vector<S> dv;
  for (int i = 0; i < nd; i++) { dv.push_back(str("dest string", 1, 1)); dst.getOrAdd(dv[i]); }
  expected(dv, 0, dall, NUL);
  auto r = un ? src->buildUnionTranslationMap(&dst) : src->buildIntersectionTranslationMap(&dst);
  ASSERTM(r.size() == sall.size(), "every source id is mapped");
  for (size_t i = 0; i < sall.size(); i++) {
    int64_t want = -1;
    for (size_t k = 0; k < dall.size(); k++) if (same(dall[k], sall[i])) want = k;
    if (un && want < 0) { want = dall.size(); dall.push_back(sall[i]); }
    ASSERTM(r[i] == want, "the id of the same string in the destination");
  }
  ASSERTM(dst.entryCount() == dall.size(), "only a union adds strings");
  for (size_t k = 0; k < dall.size(); k++) ASSERTM(same(dst.getString(k), dall[k]), "strings of the destination");
}
HARNESS(h_same) {
  Two t = layers(1);
  bool derived = sym_choose("derived", 0, 1);
  auto mk = [&]() { return derived ? std::make_shared<StringDictionary>(t.base, t.g) : std::make_shared<StringDictionary>(DictRef(1, 3), false, 2); };
  auto a = mk(), b = mk();
  std::vector<S> va, vb, xa = derived ? t.visible : std::vector<S>(), xb = xa;
  int na = sym_choose("strings", 0, 2), nb = sym_choose("other strings", 0, 2);
  for (int i = 0; i < na; i++) { va.push_back(str("string", 1, 1)); a->getOrAdd(va[i]); }
  for (int i = 0; i < nb; i++) { vb.push_back(str("other", 1, 1)); b->getOrAdd(vb[i]); }
  expected(va, 0, xa, NUL); expected(vb, 0, xb, NUL);
  bool eq = xa.size() == xb.size();
  for (size_t i = 0; eq && i < xa.size(); i++) eq = same(xa[i], xb[i]);
  ASSERTM((*a == *b) == eq && (*a != *b) == !eq, "equal exactly when all strings are");
}
