// Exact translation of bit-vector constraints to linear integer arithmetic.  Every node is given its
// signed value as an affine form over bounded integer atoms; additions, multiplications by constants and
// divisions by constants stay linear (fresh bounded quotients and remainders), and wrap-around is
// represented exactly (result = form - 2^w * k).  Comparisons decided by the intervals are folded.
// Nodes outside the fragment make the translation fail, and the bit-vector solver is used instead.
namespace lia {
using I = __int128;
struct Fail { int line; };
static I mulI(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Fail{__LINE__}; return r; }
static I addI(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Fail{__LINE__}; return r; }
static Z3_ast num(I v) {
  bool neg = v < 0;
  unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v;
  std::string s;
  if (!u) s = "0";
  while (u) {
    s.insert(s.begin(), char('0' + (int)(u % 10)));
    u /= 10;
  }
  Z3_ast a = Z3_mk_numeral(ctx(), s.c_str(), Z3_mk_int_sort(ctx()));
  return neg ? Z3_mk_unary_minus(ctx(), a) : a;
}
static I floorDiv(I a, I c) {
  I q = a / c;
  if (a % c && ((a < 0) != (c < 0))) --q;
  return q;
}
using Terms = std::vector<std::pair<int, I>>;  // (atom, coefficient), sorted, no zero coefficient
struct V {
  Terms p;
  I c = 0;       // constant
  I lo = 0, hi = 0;
  bool isC() const { return p.empty(); }
};
struct Tr {
  struct Atom { Z3_ast t; I lo, hi; };
  std::vector<Atom> atoms;
  std::unordered_map<E, V> vals;
  std::unordered_map<E, Z3_ast> bools;
  std::unordered_map<E, std::pair<I, I>> bounds;
  std::map<std::pair<Terms, std::pair<I, I>>, std::pair<V, V>> divs;
  std::map<std::pair<Terms, std::pair<I, unsigned>>, V> norms;
  std::map<Z3_ast, int> indic;
  std::vector<Z3_ast> side;
  std::unordered_map<uint32_t, Z3_ast> vars;
  bool hard = false;
  bool partial = false;
  int fresh = 0;
  unsigned nodes = 0;
  Z3_ast T, F;
  Tr() { T = Z3_mk_true(ctx()); F = Z3_mk_false(ctx()); }
  static V K(I c) { V v; v.c = v.lo = v.hi = c; return v; }
  Z3_ast mkI(const std::string& n) {
    return Z3_mk_const(ctx(), Z3_mk_string_symbol(ctx(), n.c_str()), Z3_mk_int_sort(ctx()));
  }
  V atom(Z3_ast t, I lo, I hi) {
    if (lo == hi) return K(lo);
    atoms.push_back({t, lo, hi});
    V v;
    v.p.push_back({(int)atoms.size() - 1, 1});
    v.lo = lo;
    v.hi = hi;
    return v;
  }
  V freshV(I lo, I hi) {
    if (lo == hi) return K(lo);
    Z3_ast k = mkI("k!" + std::to_string(fresh++));
    side.push_back(Z3_mk_ge(ctx(), k, num(lo)));
    side.push_back(Z3_mk_le(ctx(), k, num(hi)));
    return atom(k, lo, hi);
  }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx(), 2, x); }
  Z3_ast mulc(Z3_ast a, I c) { if (c == 1) return a; Z3_ast x[2] = {num(c), a}; return Z3_mk_mul(ctx(), 2, x); }
  Z3_ast term(const V& v) {
    std::vector<Z3_ast> x;
    for (auto& t : v.p) x.push_back(mulc(atoms[t.first].t, t.second));
    if (v.c || x.empty()) x.push_back(num(v.c));
    return x.size() == 1 ? x[0] : Z3_mk_add(ctx(), x.size(), x.data());
  }
  static I pw(unsigned w) { return (I)1 << w; }
  void range(const Terms& p, I c, I& lo, I& hi) {
    lo = hi = c;
    for (auto& t : p) {
      I a = mulI(t.second, atoms[t.first].lo), b = mulI(t.second, atoms[t.first].hi);
      lo = addI(lo, std::min(a, b));
      hi = addI(hi, std::max(a, b));
    }
  }
  V lin(const V& a, I ka, const V& b, I kb) {
    V r;
    size_t i = 0, j = 0;
    while (i < a.p.size() || j < b.p.size()) {
      if (j == b.p.size() || (i < a.p.size() && a.p[i].first < b.p[j].first)) {
        if (ka) r.p.push_back({a.p[i].first, mulI(a.p[i].second, ka)});
        ++i;
      } else if (i == a.p.size() || b.p[j].first < a.p[i].first) {
        if (kb) r.p.push_back({b.p[j].first, mulI(b.p[j].second, kb)});
        ++j;
      } else {
        I c = addI(mulI(a.p[i].second, ka), mulI(b.p[j].second, kb));
        if (c) r.p.push_back({a.p[i].first, c});
        ++i; ++j;
      }
    }
    r.c = addI(mulI(a.c, ka), mulI(b.c, kb));
    range(r.p, r.c, r.lo, r.hi);
    I l1 = mulI(ka, ka >= 0 ? a.lo : a.hi), h1 = mulI(ka, ka >= 0 ? a.hi : a.lo);
    I l2 = mulI(kb, kb >= 0 ? b.lo : b.hi), h2 = mulI(kb, kb >= 0 ? b.hi : b.lo);
    r.lo = std::max(r.lo, addI(l1, l2));
    r.hi = std::min(r.hi, addI(h1, h2));
    if (r.lo > r.hi) r.hi = r.lo;
    return r;
  }
  V addV(const V& a, const V& b) { return lin(a, 1, b, 1); }
  V subV(const V& a, const V& b) { return lin(a, 1, b, -1); }
  V mulV(const V& a, I c) { return lin(a, c, K(0), 0); }
  V neg(const V& a) { return mulV(a, -1); }
  V norm(const V& v, unsigned w) {
    I mn = -pw(w - 1), mx = pw(w - 1) - 1;
    if (v.lo >= mn && v.hi <= mx) return v;
    I kl = floorDiv(v.lo - mn, pw(w)), kh = floorDiv(v.hi - mn, pw(w));
    if (kl == kh) return addV(v, K(-mulI(kl, pw(w))));
    auto key = std::make_pair(v.p, std::make_pair(v.c, w));
    auto it = norms.find(key);
    if (it != norms.end()) return it->second;
    V k = freshV(kl, kh);
    V r = lin(v, 1, k, -pw(w));
    Z3_ast t = term(r);
    side.push_back(Z3_mk_ge(ctx(), t, num(mn)));
    side.push_back(Z3_mk_le(ctx(), t, num(mx)));
    r.lo = std::max(r.lo, mn);
    r.hi = std::min(r.hi, mx);
    norms[key] = r;
    return r;
  }
  // comparison a OP b folded by intervals; kind: 0 '<', 1 '<=', 2 '='
  Z3_ast cmp(const V& a, const V& b, int kind) {
    V d = subV(a, b);
    if (kind == 0) {
      if (d.hi < 0) return T;
      if (d.lo >= 0) return F;
    } else if (kind == 1) {
      if (d.hi <= 0) return T;
      if (d.lo > 0) return F;
    } else {
      if (d.lo == 0 && d.hi == 0) return T;
      if (d.lo > 0 || d.hi < 0) return F;
    }
    Z3_ast l = term(d), z = num(0);
    return kind == 0 ? Z3_mk_lt(ctx(), l, z) : kind == 1 ? Z3_mk_le(ctx(), l, z) : Z3_mk_eq(ctx(), l, z);
  }
  V indicator(Z3_ast c) {
    if (c == T) return K(1);
    if (c == F) return K(0);
    auto it = indic.find(c);
    if (it == indic.end()) {
      atom(Z3_mk_ite(ctx(), c, num(1), num(0)), 0, 1);
      it = indic.emplace(c, (int)atoms.size() - 1).first;
    }
    V v;
    v.p.push_back({it->second, 1});
    v.lo = 0;
    v.hi = 1;
    return v;
  }
  V ite(Z3_ast c, const V& a, const V& b) {
    if (c == T) return a;
    if (c == F) return b;
    V d = subV(a, b);
    V r;
    if (d.isC()) r = addV(b, mulV(indicator(c), d.c));
    else r = atom(Z3_mk_ite(ctx(), c, term(a), term(b)), std::min(a.lo, b.lo), std::max(a.hi, b.hi));
    r.lo = std::max(r.lo, std::min(a.lo, b.lo));
    r.hi = std::min(r.hi, std::max(a.hi, b.hi));
    return r;
  }
  V uns(const V& v, unsigned w) {
    if (v.lo >= 0) return v;
    if (v.hi < 0) return addV(v, K(pw(w)));
    V r = addV(v, mulV(indicator(cmp(v, K(0), 0)), pw(w)));
    r.lo = std::max(r.lo, (I)0);
    r.hi = std::min(r.hi, pw(w) - 1);
    return r;
  }
  // floor division by c > 0: {quotient, remainder}
  std::pair<V, V> fdiv(const V& v, I c) {
    if (c == 1) return {v, K(0)};
    // v = c * m + rest
    V m, rest;
    for (auto& t : v.p) {
      I q = t.second % c == 0 ? t.second / c : 0;
      if (q) m.p.push_back({t.first, q});
      else rest.p.push_back(t);
    }
    m.c = floorDiv(v.c, c);
    rest.c = v.c - m.c * c;
    range(m.p, m.c, m.lo, m.hi);
    range(rest.p, rest.c, rest.lo, rest.hi);
    if (m.p.empty()) {  // keep the tighter interval of v
      rest.lo = std::max(rest.lo, v.lo - m.c * c);
      rest.hi = std::min(rest.hi, v.hi - m.c * c);
    }
    I ql = floorDiv(rest.lo, c), qh = floorDiv(rest.hi, c);
    if (ql == qh) {
      std::pair<V, V> r{addV(m, K(ql)), addV(rest, K(-mulI(ql, c)))};
      return r;
    }
    auto key = std::make_pair(rest.p, std::make_pair(rest.c, c));
    auto it = divs.find(key);
    std::pair<V, V> qr;
    if (it != divs.end()) qr = it->second;
    else {
      V q = freshV(ql, qh);
      V r = lin(rest, 1, q, -c);
      Z3_ast t = term(r);
      side.push_back(Z3_mk_ge(ctx(), t, num(0)));
      side.push_back(Z3_mk_lt(ctx(), t, num(c)));
      r.lo = std::max(r.lo, (I)0);
      r.hi = std::min(r.hi, c - 1);
      qr = {q, r};
      divs[key] = qr;
    }
    V q = addV(m, qr.first);
    I vl = floorDiv(v.lo, c), vh = floorDiv(v.hi, c);
    q.lo = std::max(q.lo, vl);
    q.hi = std::min(q.hi, vh);
    return {q, qr.second};
  }
  static I sval(const APInt& c) {
    if (c.getBitWidth() > 64) throw Fail{__LINE__};
    return (I)c.getSExtValue();
  }
  static I uval(const APInt& c) {
    if (c.getBitWidth() > 64) throw Fail{__LINE__};
    return (I)c.getZExtValue();
  }
  // a * b where b takes few values
  V mulSmall(const V& a, const V& b) {
    if (b.hi - b.lo > 12) throw Fail{__LINE__};
    V r = mulV(a, b.hi);
    for (I k = b.hi - 1; k >= b.lo; --k) r = ite(cmp(b, K(k), 2), mulV(a, k), r);
    return r;
  }
  // u (unsigned view) & mask
  V andMask(const V& u, uint64_t m) {
    V r = K(0);
    unsigned pos = 0;
    int runs = 0;
    while (m) {
      unsigned z = __builtin_ctzll(m);
      m >>= z;
      pos += z;
      unsigned o = m == ~0ull ? 64 : __builtin_ctzll(~m);
      V x = fdiv(u, pw(pos)).first;
      x = fdiv(x, pw(o)).second;
      r = addV(r, mulV(x, pw(pos)));
      pos += o;
      m = o >= 64 ? 0 : m >> o;
      if (++runs > 6) throw Fail{__LINE__};
    }
    return r;
  }
  const V& val(E e) {
    auto it = vals.find(e);
    if (it != vals.end()) return it->second;
    if (++nodes > 20000) throw Fail{__LINE__};
    V v = val0(e);
    auto b = bounds.find(e);
    if (b != bounds.end()) {
      // the constraint the bound came from may itself be folded under it, so it is asserted here
      if (b->second.first > v.lo) {
        side.push_back(Z3_mk_ge(ctx(), term(v), num(b->second.first)));
        v.lo = b->second.first;
      }
      if (b->second.second < v.hi) {
        side.push_back(Z3_mk_le(ctx(), term(v), num(b->second.second)));
        v.hi = b->second.second;
      }
      if (v.lo > v.hi) v.hi = v.lo;  // contradictory constraints: the solver will say so
      if (v.p.size() == 1 && v.p[0].second == 1) {
        Atom& a = atoms[v.p[0].first];
        a.lo = std::max(a.lo, v.lo - v.c);
        a.hi = std::min(a.hi, v.hi - v.c);
        if (a.lo > a.hi) a.hi = a.lo;
      }
    }
    return vals[e] = v;
  }
  // an affine form congruent to e modulo 2^w, not brought into range: sums that cancel stay exact
  V modForm(E e) {
    if (e->w == 1) return val(e);
    V r;
    switch (e->op) {
      case Op::ADD: { V a = modForm(e->k[0]); r = addV(a, modForm(e->k[1])); break; }
      case Op::SUB: { V a = modForm(e->k[0]); r = subV(a, modForm(e->k[1])); break; }
      case Op::MUL: {
        if (!e->k[1]->isConst()) return val(e);
        if (e->w >= 32) hard = true;
        r = mulV(modForm(e->k[0]), sval(e->k[1]->c));
        break;
      }
      case Op::EXTRACT:
        if (e->aux || e->k[0]->w > 64) return val(e);
        r = modForm(e->k[0]);
        break;
      default: return val(e);
    }
    if (r.hi - r.lo > pw(96)) return norm(r, e->w);
    return r;
  }
  V val0(E e) {
    unsigned w = e->w;
    if (w > 64) throw Fail{__LINE__};
    if (e->hasFP) throw Fail{__LINE__};
    if (w == 1 && e->op != Op::EXTRACT && e->op != Op::VAR) return neg(indicator(boolean(e)));
    switch (e->op) {
      case Op::CONST: return K(sval(e->c));
      case Op::VAR: {
        Z3_ast x = mkI("v" + std::to_string(e->aux));
        vars[e->aux] = x;
        side.push_back(Z3_mk_ge(ctx(), x, num(-pw(w - 1))));
        side.push_back(Z3_mk_le(ctx(), x, num(pw(w - 1) - 1)));
        return atom(x, -pw(w - 1), pw(w - 1) - 1);
      }
      case Op::ADD: case Op::SUB: return norm(modForm(e), w);
      case Op::MUL: {
        V a = val(e->k[0]), b = val(e->k[1]);
        if (a.lo == a.hi) std::swap(a, b);
        if (w >= 32) hard = true;
        if (b.lo != b.hi) {
          if (getenv("SYM_LIA") && b.hi - b.lo > 12 && a.hi - a.lo > 12) fprintf(stderr, "lia: product %s\n", exprStr(e, 9).c_str());
          if (a.hi - a.lo < b.hi - b.lo) std::swap(a, b);
          return norm(mulSmall(a, b), w);
        }
        return norm(mulV(a, b.lo), w);
      }
      case Op::SDIV: case Op::SREM: {
        V a = val(e->k[0]), b = val(e->k[1]);
        if (b.lo != b.hi || b.lo == 0) throw Fail{__LINE__};
        hard = true;
        I c = b.lo < 0 ? -b.lo : b.lo;
        V q, r;
        if (a.lo >= 0) {
          auto d = fdiv(a, c);
          q = d.first; r = d.second;
        } else if (a.hi <= 0) {
          auto d = fdiv(neg(a), c);
          q = neg(d.first); r = neg(d.second);
        } else {
          // truncation = floor, plus one when negative and inexact
          auto d = fdiv(a, c);
          Z3_ast x[2] = {cmp(a, K(0), 0), cmp(K(0), d.second, 0)};
          V up = indicator(x[0] == T ? x[1] : x[1] == T ? x[0] : x[0] == F || x[1] == F ? F : Z3_mk_and(ctx(), 2, x));
          q = addV(d.first, up);
          r = lin(d.second, 1, up, -c);
          r.lo = std::max(r.lo, -(c - 1));
          r.hi = std::min(r.hi, c - 1);
          q.lo = std::max(q.lo, a.lo / c);
          q.hi = std::min(q.hi, a.hi / c);
        }
        if (e->op == Op::SREM) return r;
        return norm(b.lo < 0 ? neg(q) : q, w);
      }
      case Op::UDIV: case Op::UREM: {
        V b = val(e->k[1]);
        hard = true;
        if (b.lo != b.hi) {
          // symbolic divisor: representable when the quotient takes few values
          V a = uns(val(e->k[0]), w);
          b = uns(b, w);
          if (b.lo <= 0) throw Fail{__LINE__};
          I ql = a.lo / b.hi, qh = a.hi / b.lo;
          if (qh - ql > 8) throw Fail{__LINE__};
          V q = freshV(ql, qh);
          V r = subV(a, mulSmall(b, q));
          side.push_back(Z3_mk_ge(ctx(), term(r), num(0)));
          side.push_back(cmp(r, b, 0));
          r.lo = std::max(r.lo, (I)0);
          r.hi = std::min(r.hi, b.hi - 1);
          return norm(e->op == Op::UDIV ? q : r, w);
        }
        if (b.lo == 0) throw Fail{__LINE__};
        I c = b.lo < 0 ? b.lo + pw(w) : b.lo;
        auto d = fdiv(uns(val(e->k[0]), w), c);
        return norm(e->op == Op::UDIV ? d.first : d.second, w);
      }
      case Op::SHL: {
        if (!e->k[1]->isConst()) throw Fail{__LINE__};
        I s = uval(e->k[1]->c);
        if (s >= (I)w) return K(0);
        return norm(mulV(val(e->k[0]), pw((unsigned)s)), w);
      }
      case Op::LSHR: case Op::ASHR: {
        if (!e->k[1]->isConst()) throw Fail{__LINE__};
        I s = uval(e->k[1]->c);
        V a = val(e->k[0]);
        if (e->op == Op::LSHR) {
          if (s >= (I)w) return K(0);
          return norm(fdiv(uns(a, w), pw((unsigned)s)).first, w);
        }
        if (s >= (I)w) s = w - 1;
        return fdiv(a, pw((unsigned)s)).first;
      }
      case Op::AND: case Op::OR: case Op::XOR: {
        E a = e->k[0], b = e->k[1];
        if (a->isConst()) std::swap(a, b);
        if (!b->isConst()) throw Fail{__LINE__};
        uint64_t m = b->c.getZExtValue();
        V va = val(a);
        uint64_t full = w == 64 ? ~0ull : (1ull << w) - 1;
        if (e->op == Op::XOR && m == full) return addV(neg(va), K(-1));
        V u = uns(va, w);
        V x = andMask(u, m);
        if (e->op == Op::AND) return norm(x, w);
        V r = addV(addV(u, K((I)m)), mulV(x, e->op == Op::OR ? -1 : -2));
        r.lo = std::max(r.lo, (I)0);
        r.hi = std::min(r.hi, pw(w) - 1);
        return norm(r, w);
      }
      case Op::ITE: {
        Z3_ast c = boolean(e->k[0]);
        if (c == T) return val(e->k[1]);
        if (c == F) return val(e->k[2]);
        V a = val(e->k[1]);
        return ite(c, a, val(e->k[2]));
      }
      case Op::CONCAT: {
        V h = val(e->k[0]), l = val(e->k[1]);
        unsigned wl = e->k[1]->w;
        return addV(mulV(h, pw(wl)), uns(l, wl));
      }
      case Op::EXTRACT: {
        if (!e->aux && e->k[0]->w <= 64) return norm(modForm(e->k[0]), w);
        V a = val(e->k[0]);
        a = fdiv(a, pw(e->aux)).first;  // the signed floor has the same low bits
        return norm(a, w);
      }
      case Op::ZEXT: if (e->k[0]->w == 1) return indicator(boolean(e->k[0]));
      { V a = val(e->k[0]); return uns(a, e->k[0]->w); }
      case Op::SEXT: return val(e->k[0]);
      default: throw Fail{__LINE__};
    }
  }
  Z3_ast boolean(E e) {
    auto it = bools.find(e);
    if (it != bools.end()) return it->second;
    if (++nodes > 20000) throw Fail{__LINE__};
    Z3_ast r = bool0(e);
    bools[e] = r;
    return r;
  }
  Z3_ast notB(Z3_ast a) { return a == T ? F : a == F ? T : Z3_mk_not(ctx(), a); }
  Z3_ast bool0(E e) {
    if (e->hasFP) throw Fail{__LINE__};
    Z3_context c = ctx();
    switch (e->op) {
      case Op::CONST: return e->c.getBoolValue() ? T : F;
      case Op::AND: case Op::OR: case Op::XOR: {
        if (e->op == Op::XOR && e->k[1]->isConst())
          return e->k[1]->c.getBoolValue() ? notB(boolean(e->k[0])) : boolean(e->k[0]);
        Z3_ast a[2] = {boolean(e->k[0]), boolean(e->k[1])};
        if (e->op == Op::AND) {
          if (a[0] == F || a[1] == F) return F;
          if (a[0] == T) return a[1];
          if (a[1] == T) return a[0];
          return Z3_mk_and(c, 2, a);
        }
        if (e->op == Op::OR) {
          if (a[0] == T || a[1] == T) return T;
          if (a[0] == F) return a[1];
          if (a[1] == F) return a[0];
          return Z3_mk_or(c, 2, a);
        }
        return Z3_mk_xor(c, a[0], a[1]);
      }
      case Op::EQ:
        if (e->k[0]->w == 1) return Z3_mk_iff(c, boolean(e->k[0]), boolean(e->k[1]));
        { V a = val(e->k[0]); return cmp(a, val(e->k[1]), 2); }
      case Op::SLT: { V a = val(e->k[0]); return cmp(a, val(e->k[1]), 0); }
      case Op::SLE: { V a = val(e->k[0]); return cmp(a, val(e->k[1]), 1); }
      case Op::ULT: case Op::ULE: {
        V a = uns(val(e->k[0]), e->k[0]->w);
        return cmp(a, uns(val(e->k[1]), e->k[0]->w), e->op == Op::ULT ? 0 : 1);
      }
      case Op::ITE: {
        Z3_ast b = boolean(e->k[0]);
        if (b == T) return boolean(e->k[1]);
        if (b == F) return boolean(e->k[2]);
        return Z3_mk_ite(c, b, boolean(e->k[1]), boolean(e->k[2]));
      }
      case Op::EXTRACT: case Op::VAR: return notB(cmp(val(e), K(0), 2));
      default: throw Fail{__LINE__};
    }
  }
  // interval facts stated outright by the constraints
  void meet(E e, I lo, I hi) {
    if (e->w > 64) return;
    auto it = bounds.find(e);
    if (it == bounds.end()) it = bounds.emplace(e, std::make_pair(-pw(63), pw(63) - 1)).first;
    it->second.first = std::max(it->second.first, lo);
    it->second.second = std::min(it->second.second, hi);
  }
  void learn(E e, bool pos) {
    if (e->op == Op::XOR && e->w == 1 && e->k[1]->isConst() && e->k[1]->c.getBoolValue()) return learn(e->k[0], !pos);
    if ((e->op == Op::AND && pos) || (e->op == Op::OR && !pos)) {
      if (e->w != 1) return;
      learn(e->k[0], pos);
      learn(e->k[1], pos);
      return;
    }
    if (e->op != Op::SLT && e->op != Op::SLE && e->op != Op::ULT && e->op != Op::ULE && e->op != Op::EQ) return;
    E a = e->k[0], b = e->k[1];
    if (a->w > 64 || a->w == 1 || (a->isConst() == b->isConst())) return;
    const I MN = -pw(63), MX = pw(63) - 1;
    if (e->op == Op::EQ) {
      if (!pos) return;
      if (a->isConst()) std::swap(a, b);
      meet(a, sval(b->c), sval(b->c));
      return;
    }
    bool strict = e->op == Op::SLT || e->op == Op::ULT;
    if (!pos) {
      std::swap(a, b);
      strict = !strict;
    }
    // a < b or a <= b
    if (e->op == Op::SLT || e->op == Op::SLE) {
      if (a->isConst()) meet(b, sval(a->c) + (strict ? 1 : 0), MX);
      else meet(a, MN, sval(b->c) - (strict ? 1 : 0));
      return;
    }
    I half = pw(a->w - 1);
    if (b->isConst()) {  // a < C unsigned
      I hi = uval(b->c) - (strict ? 1 : 0);
      if (hi < 0) return;
      if (hi < half) meet(a, 0, hi);
      if (a->op == Op::ADD && a->k[1]->isConst()) {
        I k = sval(a->k[1]->c);
        if (-k >= -half && hi - k < half && -k <= hi - k) meet(a->k[0], -k, hi - k);
      }
    }
  }
};
}  // namespace lia
// translate; returns false if the constraints are outside the fragment
static bool liaBuild(const std::vector<E>& sl, lia::Tr& tr, std::vector<Z3_ast>& out) {
  try {
    for (E e : sl) tr.learn(e, true);
    // variables first, so that their bounds are known wherever they occur
    for (auto& b : tr.bounds)
      if (b.first->op == Op::VAR) tr.val(b.first);
  } catch (lia::Fail& f) {
    if (getenv("SYM_LIA")) fprintf(stderr, "lia: not translated (line %d)\n", f.line);
    return false;
  }
  // a constraint that cannot be translated is left out: unsatisfiable without it is unsatisfiable
  size_t n = 0;
  for (E e : sl) try {
      out.push_back(tr.boolean(e));
      ++n;
    } catch (lia::Fail& f) {
      if (getenv("SYM_LIA")) fprintf(stderr, "lia: not translated (line %d)\n", f.line);
      tr.partial = true;
    }
  for (Z3_ast a : tr.side) out.push_back(a);
  return n > 0;
}
