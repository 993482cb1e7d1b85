// @sources omniscidb/Utils/StringLike.cpp
// @bounds strings of up to 4 characters and patterns of up to 5 bytes (thorough: 6 and 6), every byte value; substring search: strings of up to 6 and patterns of up to 4 bytes; every escape character
// @assume the escape character is not itself a wildcard or bracket; ILIKE patterns are already in lower case (as the translator passes them); patterns are followed by a readable byte
#include "sym.h"
extern "C" {
bool string_like(const char*, int32_t, const char*, int32_t, char);
bool string_ilike(const char*, int32_t, const char*, int32_t, char);
int8_t string_like_nullable(const char*, int32_t, const char*, int32_t, char, int8_t);
int8_t string_ilike_nullable(const char*, int32_t, const char*, int32_t, char, int8_t);
bool string_like_simple(const char*, int32_t, const char*, int32_t);
bool string_ilike_simple(const char*, int32_t, const char*, int32_t);
int8_t string_like_simple_nullable(const char*, int32_t, const char*, int32_t, int8_t);
int8_t string_ilike_simple_nullable(const char*, int32_t, const char*, int32_t, int8_t);
}
#ifdef THOROUGH
enum { S = 6, P = 6 };
#else
enum { S = 4, P = 5 };
#endif
static char lower(char c) { return (c >= 'A') & (c <= 'Z') ? (char)(c + 32) : c; }
static bool isUpper(char c) { return (c >= 'A') & (c <= 'Z'); }
enum Kind { LIT, ANY, STAR, SET };
struct Tok { Kind k; int from, n; };  // LIT: the byte at from; SET: n bytes at from
// the pattern's tokens, -1 when it is malformed
static int parse(const char* p, int n, char esc, Tok* t) {
  int c = 0;
  for (int i = 0; i < n;) {
    if (p[i] == esc) {
      if (i + 1 >= n) return -1;
      t[c++] = {LIT, i + 1, 1};
      i += 2;
    } else if (p[i] == '%') t[c++] = {STAR, 0, 0}, ++i;
    else if (p[i] == '_') t[c++] = {ANY, 0, 0}, ++i;
    else if (p[i] == '[') {
      int j = i + 1;
      while (j < n && p[j] != ']') ++j;
      if (j >= n) return -1;
      t[c++] = {SET, i + 1, j - i - 1};
      i = j + 1;
    } else t[c++] = {LIT, i, 1}, ++i;
  }
  return c;
}
// does s match the tokens: the set of string positions reachable after each token, without branching on the bytes
static bool matches(const char* s, int n, const char* p, const Tok* t, int c, bool fold) {
  bool at[8];
  for (int i = 0; i <= n; ++i) at[i] = i == 0;
  for (int k = 0; k < c; ++k) {
    if (t[k].k == STAR) {
      for (int i = 1; i <= n; ++i) at[i] |= at[i - 1];
    } else {
      for (int i = n; i >= 1; --i) {
        char ch = fold ? lower(s[i - 1]) : s[i - 1];
        bool ok = t[k].k == ANY;
        for (int x = 0; x < t[k].n; ++x) ok |= ch == p[t[k].from + x];
        at[i] = at[i - 1] & ok;
      }
      at[0] = false;
    }
  }
  return at[n];
}
template <bool FOLD> static void like(int slen, int plen) {
  char s[S + 1], p[P + 2], esc = (char)sym_u8("escape");
  if (slen) sym_make(s, slen, "string");
  if (plen) sym_make(p, plen, "pattern");
  p[plen] = (char)sym_u8("after");
  sym_assume((esc != '%') & (esc != '_') & (esc != '[') & (esc != ']'));
  if (FOLD) { bool up = isUpper(esc); for (int i = 0; i < plen; ++i) up |= isUpper(p[i]); sym_assume(!up); }
  Tok t[P + 1];
  int c = parse(p, plen, esc, t);
  bool want = c >= 0 && matches(s, slen, p, t, c, FOLD);
  bool got = FOLD ? string_ilike(s, slen, p, plen, esc) : string_like(s, slen, p, plen, esc);
  sym_observe(got);
  sym_assert(got == want, "matches exactly when the pattern's tokens cover the string; a malformed pattern matches nothing");
  int8_t nul = (int8_t)sym_u8("null");
  int8_t g = FOLD ? string_ilike_nullable(s, slen, p, plen, esc, nul) : string_like_nullable(s, slen, p, plen, esc, nul);
  sym_assert(g == (int8_t)want, "nullable LIKE of two strings");
  sym_assert((FOLD ? string_ilike_nullable(nullptr, 0, p, plen, esc, nul) : string_like_nullable(nullptr, 0, p, plen, esc, nul)) == nul, "NULL LIKE pattern");
  sym_assert((FOLD ? string_ilike_nullable(s, slen, nullptr, 0, esc, nul) : string_like_nullable(s, slen, nullptr, 0, esc, nul)) == nul, "LIKE NULL");
}
template <bool FOLD> static void upTo(int plen) { like<FOLD>(sym_choose("string_length", 0, S), plen); }
HARNESS(h_like_0) { upTo<false>(0); }
HARNESS(h_like_1) { upTo<false>(1); }
HARNESS(h_like_2) { upTo<false>(2); sym_cover("like 2"); }
HARNESS(h_like_3) { upTo<false>(3); }
HARNESS(h_like_4) { upTo<false>(4); sym_cover("like 4"); }
HARNESS(h_ilike_1) { upTo<true>(1); }
HARNESS(h_ilike_2) { upTo<true>(2); }
HARNESS(h_ilike_3) { upTo<true>(3); sym_cover("ilike 3"); }
HARNESS(h_like_5) { upTo<false>(5); }
HARNESS(h_ilike_4) { upTo<true>(4); }
#ifdef THOROUGH
HARNESS(h_like_6) { upTo<false>(6); }
HARNESS(h_ilike_5) { upTo<true>(5); }
#endif
// LIKE '%literal%'
template <bool FOLD> static void simple() {
  char s[6], p[4];
  int n = sym_choose("string_length", 0, 6), m = sym_choose("pattern_length", 0, 4);
  if (n) sym_make(s, n, "string");
  if (m) sym_make(p, m, "pattern");
  if (FOLD) { bool up = false; for (int i = 0; i < m; ++i) up |= isUpper(p[i]); sym_assume(!up); }
  bool want = false;
  for (int i = 0; i + m <= n; ++i) {
    bool eq = true;
    for (int j = 0; j < m; ++j) eq &= (FOLD ? lower(s[i + j]) : s[i + j]) == p[j];
    want |= eq;
  }
  bool got = FOLD ? string_ilike_simple(s, n, p, m) : string_like_simple(s, n, p, m);
  sym_observe(got);
  sym_assert(got == want, "the string contains the pattern");
  int8_t nul = (int8_t)sym_u8("null");
  sym_assert((FOLD ? string_ilike_simple_nullable(s, n, p, m, nul) : string_like_simple_nullable(s, n, p, m, nul)) == (int8_t)want, "nullable containment");
  sym_assert((FOLD ? string_ilike_simple_nullable(nullptr, n, p, m, nul) : string_like_simple_nullable(nullptr, n, p, m, nul)) == nul, "NULL contains nothing known");
  sym_assert((FOLD ? string_ilike_simple_nullable(s, n, nullptr, m, nul) : string_like_simple_nullable(s, n, nullptr, m, nul)) == nul, "containment of NULL");
  sym_cover("simple");
}
HARNESS(h_simple) { simple<false>(); }
HARNESS(h_isimple) { simple<true>(); }
