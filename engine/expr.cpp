#include "expr.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
#include <cmath>
#include <cstring>
#include <deque>
#include <unordered_map>
#include <algorithm>
using llvm::APInt;
std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;
static std::unordered_multimap<uint64_t, E> g_tab;
static uint64_t g_epoch = 1;
size_t exprCount() { return g_pool.size(); }
void bumpEval() { ++g_epoch; }

static uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdULL;
}
static bool isFP(Op op) { return op >= Op::FADD; }

static E intern(Op op, unsigned w, unsigned aux, E a, E b, E c, const APInt* cv) {
  uint64_t h = hmix(hmix(hmix((uint64_t)op, w), aux), 7);
  h = hmix(h, a ? a->id + 1 : 0);
  h = hmix(h, b ? b->id + 1 : 0);
  h = hmix(h, c ? c->id + 1 : 0);
  if (cv)
    for (unsigned i = 0; i < cv->getNumWords(); ++i) h = hmix(h, cv->getRawData()[i]);
  auto r = g_tab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    E e = it->second;
    if (e->op == op && e->w == w && e->aux == aux && e->k[0] == a && e->k[1] == b &&
        e->k[2] == c && (!cv || e->c == *cv))
      return e;
  }
  g_pool.emplace_back();
  Expr& n = g_pool.back();
  n.op = op;
  n.w = w;
  n.aux = aux;
  n.id = (uint32_t)g_pool.size();
  n.k[0] = a;
  n.k[1] = b;
  n.k[2] = c;
  if (cv) n.c = *cv;
  n.hasFP = isFP(op);
  if (op == Op::VAR) n.vars.push_back(aux);
  for (int i = 0; i < 3; ++i)
    if (n.k[i]) {
      n.hasFP |= n.k[i]->hasFP;
      if (n.vars.empty())
        n.vars = n.k[i]->vars;
      else if (n.vars != n.k[i]->vars) {
        std::vector<uint32_t> o;
        std::set_union(n.vars.begin(), n.vars.end(), n.k[i]->vars.begin(),
                       n.k[i]->vars.end(), std::back_inserter(o));
        n.vars.swap(o);
      }
    }
  g_tab.emplace(h, &n);
  return &n;
}

E mkConst(const APInt& v) {
  return intern(Op::CONST, v.getBitWidth(), 0, nullptr, nullptr, nullptr, &v);
}
E mkConst(unsigned w, uint64_t v) {
  APInt a(64, v);
  return mkConst(a.zextOrTrunc(w));
}
E mkVar(const std::string& name, unsigned w) {
  uint32_t id = g_vars.size();
  g_vars.push_back({name, w, nullptr});
  E e = intern(Op::VAR, w, id, nullptr, nullptr, nullptr, nullptr);
  g_vars.back().e = e;
  return e;
}

static double asD(const APInt& a) {
  uint64_t v = a.getZExtValue();
  double d;
  memcpy(&d, &v, 8);
  return d;
}
static float asF(const APInt& a) {
  uint32_t v = (uint32_t)a.getZExtValue();
  float d;
  memcpy(&d, &v, 4);
  return d;
}
static APInt fromD(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  return APInt(64, v);
}
static APInt fromF(float d) {
  uint32_t v;
  memcpy(&v, &d, 4);
  return APInt(32, v);
}
static double rti(double x, unsigned m) {
  switch (m) {
    case RM_NEAREST: return std::nearbyint(x);
    case RM_UP: return std::ceil(x);
    case RM_DOWN: return std::floor(x);
    case RM_ZERO: return std::trunc(x);
    default: return std::round(x);
  }
}

APInt foldOp(Op op, unsigned w, unsigned aux, const APInt* a, int n) {
  switch (op) {
    case Op::ADD: return a[0] + a[1];
    case Op::SUB: return a[0] - a[1];
    case Op::MUL: return a[0] * a[1];
    // SMT-LIB conventions for a zero divisor (the executor guards division itself)
    case Op::UDIV: return a[1].isZero() ? APInt::getAllOnes(w) : a[0].udiv(a[1]);
    case Op::SDIV:
      return a[1].isZero() ? (a[0].isNegative() ? APInt(w, 1) : APInt::getAllOnes(w))
                           : a[0].sdiv(a[1]);
    case Op::UREM: return a[1].isZero() ? a[0] : a[0].urem(a[1]);
    case Op::SREM: return a[1].isZero() ? a[0] : a[0].srem(a[1]);
    case Op::AND: return a[0] & a[1];
    case Op::OR: return a[0] | a[1];
    case Op::XOR: return a[0] ^ a[1];
    case Op::SHL: return a[1].uge(w) ? APInt(w, 0) : a[0].shl(a[1]);
    case Op::LSHR: return a[1].uge(w) ? APInt(w, 0) : a[0].lshr(a[1]);
    case Op::ASHR: return a[1].uge(w) ? a[0].ashr(w - 1) : a[0].ashr(a[1]);
    case Op::EQ: return APInt(1, a[0] == a[1]);
    case Op::ULT: return APInt(1, a[0].ult(a[1]));
    case Op::ULE: return APInt(1, a[0].ule(a[1]));
    case Op::SLT: return APInt(1, a[0].slt(a[1]));
    case Op::SLE: return APInt(1, a[0].sle(a[1]));
    case Op::ITE: return a[0].getBoolValue() ? a[1] : a[2];
    case Op::CONCAT: return a[0].concat(a[1]);
    case Op::EXTRACT: return a[0].extractBits(w, aux);
    case Op::ZEXT: return a[0].zext(w);
    case Op::SEXT: return a[0].sext(w);
    default: break;
  }
  bool d = a[0].getBitWidth() == 64;
  switch (op) {
    case Op::FADD: return d ? fromD(asD(a[0]) + asD(a[1])) : fromF(asF(a[0]) + asF(a[1]));
    case Op::FSUB: return d ? fromD(asD(a[0]) - asD(a[1])) : fromF(asF(a[0]) - asF(a[1]));
    case Op::FMUL: return d ? fromD(asD(a[0]) * asD(a[1])) : fromF(asF(a[0]) * asF(a[1]));
    case Op::FDIV: return d ? fromD(asD(a[0]) / asD(a[1])) : fromF(asF(a[0]) / asF(a[1]));
    case Op::FREM:
      return d ? fromD(std::fmod(asD(a[0]), asD(a[1]))) : fromF(std::fmod(asF(a[0]), asF(a[1])));
    case Op::FMA:
      return d ? fromD(std::fma(asD(a[0]), asD(a[1]), asD(a[2])))
               : fromF(std::fma(asF(a[0]), asF(a[1]), asF(a[2])));
    case Op::FSQRT: return d ? fromD(std::sqrt(asD(a[0]))) : fromF(std::sqrt(asF(a[0])));
    case Op::FRTI: return d ? fromD(rti(asD(a[0]), aux)) : fromF((float)rti(asF(a[0]), aux));
    case Op::FEQ: return APInt(1, d ? asD(a[0]) == asD(a[1]) : asF(a[0]) == asF(a[1]));
    case Op::FLT: return APInt(1, d ? asD(a[0]) < asD(a[1]) : asF(a[0]) < asF(a[1]));
    case Op::FLE: return APInt(1, d ? asD(a[0]) <= asD(a[1]) : asF(a[0]) <= asF(a[1]));
    case Op::FISNAN: return APInt(1, d ? std::isnan(asD(a[0])) : std::isnan(asF(a[0])));
    case Op::FP2SI:
    case Op::FP2UI: {
      double x = d ? asD(a[0]) : (double)asF(a[0]);
      // out of range: what cvttss2si/cvttsd2si give ("integer indefinite"), truncated
      if (op == Op::FP2SI) {
        if (w == 64) {
          if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0))
            return APInt(64, 0x8000000000000000ULL);
          return APInt(64, (uint64_t)(int64_t)x);
        }
        if (!(x > -2147483649.0 && x < 2147483648.0)) return APInt(32, 0x80000000u).trunc(w);
        return APInt(32, (uint32_t)(int32_t)x).trunc(w);
      }
      if (!(x > -1.0 && x < 18446744073709551616.0)) return APInt(64, 0).trunc(w);
      return APInt(64, (uint64_t)x).trunc(w);
    }
    case Op::SI2FP: {
      int64_t v = a[0].getSExtValue();
      return w == 64 ? fromD((double)v) : fromF((float)v);
    }
    case Op::UI2FP: {
      uint64_t v = a[0].getZExtValue();
      return w == 64 ? fromD((double)v) : fromF((float)v);
    }
    case Op::FP2FP:
      if (a[0].getBitWidth() == w) return a[0];
      return w == 64 ? fromD((double)asF(a[0])) : fromF((float)asD(a[0]));
    default: break;
  }
  fprintf(stderr, "foldOp: bad op %d\n", (int)op);
  abort();
}

static bool commut(Op op) {
  return op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR ||
         op == Op::EQ;
}
static unsigned resW(Op op, E a) {
  switch (op) {
    case Op::EQ: case Op::ULT: case Op::ULE: case Op::SLT: case Op::SLE:
    case Op::FEQ: case Op::FLT: case Op::FLE: case Op::FISNAN: return 1;
    default: return a->w;
  }
}

E mkNot(E a) { return mk(Op::XOR, a, mkConst(APInt::getAllOnes(a->w))); }

// number of known-zero high bits (cheap bound on magnitude)
static unsigned hz(E a) {
  if (a->op == Op::CONST) return a->c.countl_zero();
  if (a->op == Op::ZEXT) return a->w - a->k[0]->w + hz(a->k[0]);
  if (a->op == Op::AND) return std::max(hz(a->k[0]), hz(a->k[1]));
  if (a->op == Op::LSHR && a->k[1]->isConst())
    return (unsigned)std::min<uint64_t>(a->w, a->k[1]->c.getLimitedValue(a->w));
  if (a->op == Op::ITE) return std::min(hz(a->k[1]), hz(a->k[2]));
  if (a->op == Op::CONCAT && a->k[0]->isConst() && a->k[0]->c.isZero())
    return a->k[0]->w + hz(a->k[1]);
  return 0;
}

E mk(Op op, E a, E b) {
  assert(a->w == b->w);
  unsigned w = resW(op, a);
  if (a->isConst() && b->isConst()) {
    APInt v[2] = {a->c, b->c};
    return mkConst(foldOp(op, w, 0, v, 2));
  }
  if (commut(op)) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);  // constants right
  }
  switch (op) {
    case Op::ADD:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (a->op == Op::ADD && a->k[1]->isConst())
          return mk(Op::ADD, a->k[0], mkConst(a->k[1]->c + b->c));
      } else {
        // float constants outwards: (x+c)+y -> (x+y)+c
        if (a->op == Op::ADD && a->k[1]->isConst())
          return mk(Op::ADD, mk(Op::ADD, a->k[0], b), a->k[1]);
        if (b->op == Op::ADD && b->k[1]->isConst())
          return mk(Op::ADD, mk(Op::ADD, a, b->k[0]), b->k[1]);
      }
      break;
    case Op::SUB:
      if (a == b) return mkConst(w, 0);
      if (b->isConst()) return mk(Op::ADD, a, mkConst(-b->c));
      if (a->op == Op::ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (a->k[1]->isConst())
          return mk(Op::ADD, mk(Op::SUB, a->k[0], b), a->k[1]);
      }
      if (b->op == Op::ADD && b->k[1]->isConst())
        return mk(Op::ADD, mk(Op::SUB, a, b->k[0]), mkConst(-b->k[1]->c));
      break;
    case Op::MUL:
      if (b->isConst()) {
        if (b->c.isZero()) return b;
        if (b->c.isOne()) return a;
        if (b->c.isPowerOf2()) return mk(Op::SHL, a, mkConst(w, b->c.logBase2()));
      }
      break;
    case Op::UDIV:
      if (b->isConst()) {
        if (b->c.isOne()) return a;
        if (b->c.isPowerOf2()) return mk(Op::LSHR, a, mkConst(w, b->c.logBase2()));
      }
      break;
    case Op::SDIV:
      if (b->isConst() && b->c.isOne()) return a;
      break;
    case Op::UREM:
      if (b->isConst() && b->c.isPowerOf2()) return mk(Op::AND, a, mkConst(b->c - 1));
      break;
    case Op::SREM:
      if (b->isConst() && b->c.isOne()) return mkConst(w, 0);
      break;
    case Op::AND:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c.isZero()) return b;
        if (b->c.isAllOnes()) return a;
        if (a->op == Op::AND && a->k[1]->isConst())
          return mk(Op::AND, a->k[0], mkConst(a->k[1]->c & b->c));
        if (b->c.isMask()) {
          unsigned n = b->c.countr_one();
          if (a->w - hz(a) <= n) return a;
          return mkZext(mkExtract(a, 0, n), w);
        }
        if (b->c.isShiftedMask()) {  // a field: its bits over zeros
          unsigned lo = b->c.countr_zero(), n = b->c.popcount();
          return mkConcat(mkZext(mkExtract(a, lo, n), w - lo), mkConst(lo, 0));
        }
      }
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(1, 0);
        if ((b->op == Op::AND && (b->k[0] == a || b->k[1] == a))) return b;
        if ((a->op == Op::AND && (a->k[0] == b || a->k[1] == b))) return a;
      }
      break;
    case Op::OR:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (b->c.isAllOnes()) return b;
      }
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(1, 1);
        if ((b->op == Op::OR && (b->k[0] == a || b->k[1] == a))) return b;
        if ((a->op == Op::OR && (a->k[0] == b || a->k[1] == b))) return a;
      }
      // disjoint halves: zext(lo) | (zext(hi) << n) -> concat
      if (w > 1) {
        for (int s = 0; s < 2; ++s) {
          E x = s ? b : a, y = s ? a : b;
          if (y->op == Op::CONCAT && y->k[1]->isConst() && y->k[1]->c.isZero() &&
              w - hz(x) <= y->k[1]->w)
            return mkConcat(y->k[0], mkExtract(x, 0, y->k[1]->w));
        }
      }
      break;
    case Op::XOR:
      if (a == b) return mkConst(w, 0);
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (a->op == Op::XOR && a->k[1]->isConst())
          return mk(Op::XOR, a->k[0], mkConst(a->k[1]->c ^ b->c));
        if (w == 1 && b->c.isOne()) {  // boolean negation
          if (a->op == Op::ITE && (a->k[1]->isConst() || a->k[2]->isConst()))
            return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
        }
      }
      break;
    case Op::SHL:
    case Op::LSHR:
    case Op::ASHR:
      if (b->isConst()) {
        if (b->c.isZero()) return a;
        if (b->c.uge(w)) {
          if (op != Op::ASHR) return mkConst(w, 0);
          b = mkConst(w, w - 1);
        }
        unsigned n = (unsigned)b->c.getZExtValue();
        if (op == Op::SHL) return mkConcat(mkExtract(a, 0, w - n), mkConst(n, 0));
        if (op == Op::LSHR) return mkZext(mkExtract(a, n, w - n), w);
        return mkSext(mkExtract(a, n, w - n), w);
      }
      break;
    case Op::EQ:
      if (a == b) return mkConst(1, 1);
      if (a->w == 1 && b->isConst()) return b->c.isOne() ? a : mkNot(a);
      if (b->isConst()) {
        if (a->op == Op::ITE) {
          E t = a->k[1], f = a->k[2];
          if (t->isConst() || f->isConst())
            return mkIte(a->k[0], mk(Op::EQ, t, b), mk(Op::EQ, f, b));
        }
        if (a->op == Op::ZEXT) {
          unsigned kw = a->k[0]->w;
          if (b->c.getActiveBits() > kw) return mkConst(1, 0);
          return mk(Op::EQ, a->k[0], mkConst(b->c.trunc(kw)));
        }
        if (a->op == Op::SEXT) {
          unsigned kw = a->k[0]->w;
          if (!b->c.isSignedIntN(kw)) return mkConst(1, 0);
          return mk(Op::EQ, a->k[0], mkConst(b->c.trunc(kw)));
        }
        if (a->op == Op::ADD && a->k[1]->isConst())
          return mk(Op::EQ, a->k[0], mkConst(b->c - a->k[1]->c));
        if (a->op == Op::XOR && a->k[1]->isConst())
          return mk(Op::EQ, a->k[0], mkConst(b->c ^ a->k[1]->c));
        if (a->op == Op::CONCAT) {
          unsigned lw = a->k[1]->w;
          return mkAnd(mk(Op::EQ, a->k[0], mkConst(b->c.lshr(lw).trunc(a->k[0]->w))),
                       mk(Op::EQ, a->k[1], mkConst(b->c.trunc(lw))));
        }
      } else {
        if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->w == b->k[0]->w)
          return mk(Op::EQ, a->k[0], b->k[0]);
        if (a->op == Op::SEXT && b->op == Op::SEXT && a->k[0]->w == b->k[0]->w)
          return mk(Op::EQ, a->k[0], b->k[0]);
        if (a->op == Op::ADD && b->op == Op::ADD && a->k[1] == b->k[1])
          return mk(Op::EQ, a->k[0], b->k[0]);
        if (a->op == Op::ADD && a->k[0] == b) return mk(Op::EQ, a->k[1], mkConst(a->w, 0));
        if (b->op == Op::ADD && b->k[0] == a) return mk(Op::EQ, b->k[1], mkConst(a->w, 0));
        if (a->w == 1) return mkNot(mk(Op::XOR, a, b));
      }
      break;
    case Op::ULT:
      if (a == b) return mkConst(1, 0);
      if (b->isConst()) {
        if (b->c.isZero()) return mkConst(1, 0);
        if (b->c.isOne()) return mk(Op::EQ, a, mkConst(a->w, 0));
        if (a->w - hz(a) < b->c.getActiveBits()) return mkConst(1, 1);
        if (a->op == Op::ZEXT) {
          if (b->c.getActiveBits() > a->k[0]->w) return mkConst(1, 1);
          return mk(op, a->k[0], mkConst(b->c.trunc(a->k[0]->w)));
        }
      }
      if (a->isConst()) {
        if (a->c.isAllOnes()) return mkConst(1, 0);
        if (a->c.isZero()) return mkNe(b, a);
        if (b->op == Op::ZEXT) {
          if (a->c.getActiveBits() > b->k[0]->w) return mkConst(1, 0);
          return mk(op, mkConst(a->c.trunc(b->k[0]->w)), b->k[0]);
        }
      }
      if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->w == b->k[0]->w)
        return mk(op, a->k[0], b->k[0]);
      break;
    case Op::ULE:
      if (a == b) return mkConst(1, 1);
      if (a->isConst() && a->c.isZero()) return mkConst(1, 1);
      if (b->isConst() && b->c.isAllOnes()) return mkConst(1, 1);
      return mkNot(mk(Op::ULT, b, a));
    case Op::SLT:
      if (a == b) return mkConst(1, 0);
      if (b->isConst()) {
        if (b->c.isMinSignedValue()) return mkConst(1, 0);
        if ((a->op == Op::SEXT) && b->c.isSignedIntN(a->k[0]->w))
          return mk(op, a->k[0], mkConst(b->c.trunc(a->k[0]->w)));
        if (a->op == Op::SEXT) return mkConst(1, !b->c.isNegative());
        if (hz(a) > 0) {
          if (!b->c.isStrictlyPositive()) return mkConst(1, 0);
          return mk(Op::ULT, a, b);
        }
      }
      if (a->isConst()) {
        if (a->c.isMaxSignedValue()) return mkConst(1, 0);
        if ((b->op == Op::SEXT) && a->c.isSignedIntN(b->k[0]->w))
          return mk(op, mkConst(a->c.trunc(b->k[0]->w)), b->k[0]);
        if (b->op == Op::SEXT) return mkConst(1, a->c.isNegative());
        if (hz(b) > 0) {
          if (a->c.isNegative()) return mkConst(1, 1);
          return mk(Op::ULT, a, b);
        }
      }
      if (a->op == Op::SEXT && b->op == Op::SEXT && a->k[0]->w == b->k[0]->w)
        return mk(op, a->k[0], b->k[0]);
      if (hz(a) > 0 && hz(b) > 0) return mk(Op::ULT, a, b);
      break;
    case Op::SLE:
      if (a == b) return mkConst(1, 1);
      return mkNot(mk(Op::SLT, b, a));
    default: break;
  }
  return intern(op, w, 0, a, b, nullptr, nullptr);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->c.getBoolValue() ? a : b;
  if (a == b) return a;
  if (c->op == Op::XOR && c->k[1]->isConst()) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c.getBoolValue() ? c : mkNot(c);
    if (a->isConst()) return a->c.getBoolValue() ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c.getBoolValue() ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == Op::ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (b->op == Op::ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return intern(Op::ITE, a->w, 0, c, a, b, nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.extractBits(w, lo));
  switch (a->op) {
    case Op::EXTRACT: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::CONCAT: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZEXT:
      if (lo >= a->k[0]->w) return mkConst(w, 0);
      if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, a->k[0]->w - lo), w);
    case Op::SEXT:
      if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSext(a->k[0], w);
      break;
    case Op::ITE:
      if (a->k[1]->isConst() || a->k[2]->isConst())
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case Op::AND: case Op::OR: case Op::XOR:
      return mk(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::ADD: case Op::SUB: case Op::MUL:
      if (lo == 0) return mk(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return intern(Op::EXTRACT, w, lo, a, nullptr, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
  if (hi->isConst() && lo->isConst()) return mkConst(hi->c.concat(lo->c));
  if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->k[0] == lo->k[0] &&
      hi->aux == lo->aux + lo->w)
    return mkExtract(hi->k[0], lo->aux, hi->w + lo->w);
  if (hi->op == Op::EXTRACT && hi->k[0] == lo && hi->aux == 0) {
  }
  if (hi->op == Op::EXTRACT && lo->op == Op::CONCAT && lo->k[0]->op == Op::EXTRACT &&
      hi->k[0] == lo->k[0]->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->isConst() && hi->c.isZero()) return mkZext(lo, hi->w + lo->w);
  if (hi->op == Op::ZEXT && !lo->isConst()) return mkZext(mkConcat(hi->k[0], lo), hi->w + lo->w);
  return intern(Op::CONCAT, hi->w + lo->w, 0, hi, lo, nullptr, nullptr);
}
E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (a->isConst()) return mkConst(a->c.zext(w));
  if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
  if (a->op == Op::ITE && (a->k[1]->isConst() && a->k[2]->isConst()))
    return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(Op::ZEXT, w, 0, a, nullptr, nullptr, nullptr);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->op == Op::SEXT) return mkSext(a->k[0], w);
  if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
  if (a->w == 1) return mkIte(a, mkConst(APInt::getAllOnes(w)), mkConst(w, 0));
  if (a->op == Op::ITE && (a->k[1]->isConst() && a->k[2]->isConst()))
    return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(Op::SEXT, w, 0, a, nullptr, nullptr, nullptr);
}
E mkFpUn(Op op, E a, unsigned w, unsigned aux) {
  if (a->isConst()) {
    APInt v[1] = {a->c};
    return mkConst(foldOp(op, w, aux, v, 1));
  }
  if (op == Op::FISNAN && (a->op == Op::SI2FP || a->op == Op::UI2FP)) return mkConst(1, 0);
  return intern(op, w, aux, a, nullptr, nullptr, nullptr);
}
E mkFma(E a, E b, E c) {
  if (a->isConst() && b->isConst() && c->isConst()) {
    APInt v[3] = {a->c, b->c, c->c};
    return mkConst(foldOp(Op::FMA, a->w, 0, v, 3));
  }
  return intern(Op::FMA, a->w, 0, a, b, c, nullptr);
}
E mkTable(E idx, const std::vector<E>& tab, size_t lo, size_t hi) {
  // [lo, hi)
  if (hi - lo == 1) return tab[lo];
  size_t mid = (lo + hi) / 2;
  E l = mkTable(idx, tab, lo, mid), r = mkTable(idx, tab, mid, hi);
  if (l == r) return l;
  return mkIte(mk(Op::ULT, idx, mkConst(idx->w, mid)), l, r);
}

APInt evalE(E root, const Model& m) {
  if (root->op == Op::CONST) return root->c;
  if (root->evEpoch == g_epoch) return root->ev;
  // iterative post-order (expressions can be deep)
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->op == Op::CONST || e->evEpoch == g_epoch) {
      st.pop_back();
      continue;
    }
    if (e->op == Op::VAR) {
      uint64_t v = e->aux < m.size() ? m[e->aux] : 0;
      e->ev = APInt(64, v).zextOrTrunc(e->w);
      e->evEpoch = g_epoch;
      st.pop_back();
      continue;
    }
    auto ready = [&](E k) { return k->op == Op::CONST || k->evEpoch == g_epoch; };
    auto val = [&](E k) -> const APInt& { return k->op == Op::CONST ? k->c : k->ev; };
    if (e->op == Op::ITE) {
      if (!ready(e->k[0])) {
        st.push_back(e->k[0]);
        continue;
      }
      E b = val(e->k[0]).getBoolValue() ? e->k[1] : e->k[2];
      if (!ready(b)) {
        st.push_back(b);
        continue;
      }
      e->ev = val(b);
      e->evEpoch = g_epoch;
      st.pop_back();
      continue;
    }
    bool ok = true;
    int n = e->nk();
    for (int i = 0; i < n; ++i)
      if (!ready(e->k[i])) {
        st.push_back(e->k[i]);
        ok = false;
      }
    if (!ok) continue;
    APInt v[3] = {val(e->k[0]), n > 1 ? val(e->k[1]) : APInt(1, 0),
                  n > 2 ? val(e->k[2]) : APInt(1, 0)};
    e->ev = foldOp(e->op, e->w, e->aux, v, n);
    e->evEpoch = g_epoch;
    st.pop_back();
  }
  return root->ev;
}

std::string exprStr(E e, int depth) {
  static const char* nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
                             "and", "or", "xor", "shl", "lshr", "ashr", "=", "ult", "ule", "slt",
                             "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub",
                             "fmul", "fdiv", "frem", "fma", "fsqrt", "frti", "feq", "flt", "fle",
                             "isnan", "fp2si", "fp2ui", "si2fp", "ui2fp", "fp2fp"};
  if (e->op == Op::CONST) {
    llvm::SmallString<40> s;
    e->c.toString(s, 10, true);
    return std::string(s.str()) + ":" + std::to_string(e->w);
  }
  if (e->op == Op::VAR) return g_vars[e->aux].name;
  if (depth == 0) return "...";
  std::string r = std::string("(") + nm[(int)e->op];
  if (e->op == Op::EXTRACT) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->op == Op::ZEXT || e->op == Op::SEXT) r += std::to_string(e->w);
  for (int i = 0; i < e->nk(); ++i) r += " " + exprStr(e->k[i], depth - 1);
  return r + ")";
}
