// Symbolic executor for LLVM bitcode.
#include "state.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <pthread.h>
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/IntrinsicInst.h"
#include <sys/resource.h>
using namespace llvm;

struct Unsup {
  std::string m;
};
struct Kill {};  // the current state ends here

static LLVMContext g_llctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<ObjP> g_globals;  // sorted by base
static uint64_t g_globalNext = 0x10000000ULL;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, Function*> g_faddr;
static std::unordered_map<const Function*, std::unique_ptr<KFunc>> g_kf;
static std::unordered_map<uint64_t, int> g_typeIds;

// ------------------------------------------------------------------ options and results
static uint64_t o_maxSteps = 20000000, o_maxPaths = 1000000;
static double o_maxTime = 600;
static std::vector<std::string> o_merge;  // functions whose returning states are joined
static int o_samples = 4, o_maxViol = 3, o_preempt = 2;
static uint64_t o_maxTable = 4096;
static std::string o_entry, o_out;
static std::vector<std::string> o_symReplaced;

struct Violation {
  std::string kind, msg, where;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<unsigned> widths;
};
struct Sample {
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<unsigned> widths;
  std::vector<uint64_t> obs;
};
static std::vector<Violation> g_viol;
static std::vector<Sample> g_samples;
static std::map<std::string, uint64_t> g_incomplete;
static std::map<std::string, uint64_t> g_covers;
static uint64_t g_paths = 0, g_ended = 0, g_assumeKilled = 0, g_steps = 0, g_forks = 0, g_asserts = 0,
                g_assertQueries = 0, g_violTotal = 0, g_merges = 0, g_lost = 0;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count();
}

struct Worklist {
  std::vector<StateP> v;
};
static std::vector<Worklist*> g_wl;  // innermost exploration last

static void pushState(StateP s) { g_wl.back()->v.push_back(std::move(s)); }
static StateP cloneState(const State& s) {
  auto n = std::make_unique<State>(s);
  return n;
}

// ------------------------------------------------------------------ naming
static std::string where(State& s) {
  std::string r;
  auto& st = s.th[s.cur].st;
  int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < 8; --i, ++n) {
    if (n) r += " < ";
    r += demangle(st[i].f->F->getName().str()).substr(0, 110);
  }
  return r;
}
static void fillInputs(State& s, const Model& m, std::vector<std::pair<std::string, uint64_t>>& in,
                       std::vector<unsigned>& ws) {
  for (auto& i : s.inputs) {
    in.push_back({g_vars[i.var].name, i.var < m.size() ? m[i.var] : 0});
    ws.push_back(g_vars[i.var].w);
  }
}
static void report(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
  ++g_violTotal;
  std::string w = where(s);
  int same = 0;
  for (auto& v : g_viol)
    if (v.kind == kind && v.msg == msg) ++same;
  if (same >= o_maxViol) return;
  Violation v;
  v.kind = kind;
  v.msg = msg;
  v.where = w;
  fillInputs(s, *m, v.inputs, v.widths);
  g_viol.push_back(v);
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) {
  report(s, kind, msg, s.model);
  throw Kill();
}
static void incomplete(const std::string& why) { ++g_incomplete[why]; }

// ------------------------------------------------------------------ constraints
static void addC(State& s, E c) {
  if (c->isConst()) return;
  if (c->op == Op::AND && c->w == 1) {
    addC(s, c->k[0]);
    addC(s, c->k[1]);
    return;
  }
  s.cs.push_back(c);
}
static bool modelTrue(State& s, E c) {
  bumpEval();
  return evalBool(c, *s.model);
}
// may c be true? (m set to a model)
static Res may(State& s, E c, ModelP& m) {
  if (c->isConst()) {
    m = s.model;
    return c->c.getBoolValue() ? Res::SAT : Res::UNSAT;
  }
  if (modelTrue(s, c)) {
    m = s.model;
    return Res::SAT;
  }
  return checkSat(s.cs, c, s.model, m);
}
// Decide a branch.  Returns the direction taken by this state; pushes the other side, at the
// same program point, when it is feasible (the caller re-executes the instruction there).
static bool decide(State& s, E c) {
  if (c->isConst()) return c->c.getBoolValue();
  bool dir = modelTrue(s, c);
  E mine = dir ? c : mkNot(c), other = mkNot(mine);
  ModelP om;
  Res r = checkSat(s.cs, other, s.model, om);
  if (r == Res::SAT) {
    auto n = cloneState(s);
    addC(*n, other);
    n->model = om;
    n->forks++;
    ++g_forks;
    pushState(std::move(n));
    addC(s, mine);
    s.forks++;
  } else if (r == Res::UNKNOWN) {
    incomplete("solver gave no answer on a branch");
    ++g_lost;
    addC(s, mine);
  }
  return dir;
}
static uint64_t concretize(State& s, const Val& v) {
  if (v.conc()) return v.v;
  E e = toE(v);
  if (e->w > 64) throw Unsup{"concretize wide value"};
  bumpEval();
  uint64_t k = evalE(e, *s.model).getZExtValue();
  E c = mkEq(e, mkConst(e->w, k));
  bool d = decide(s, c);
  assert(d);
  (void)d;
  return k;
}

// ------------------------------------------------------------------ memory
static ObjP* findG(State& s, uint64_t a) {
  // global range
  size_t lo = 0, hi = g_globals.size();
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    if (g_globals[m]->base <= a)
      lo = m + 1;
    else
      hi = m;
  }
  if (!lo) return nullptr;
  ObjP& o = g_globals[lo - 1];
  if (a > o->base + o->size) return nullptr;
  auto it = s.gmod.find(lo - 1);
  if (it != s.gmod.end()) return &it->second;
  return &o;
}
static ObjP* find(State& s, uint64_t a) {
  if (a < 0x100000000000ULL) return a >= 0x10000000ULL ? findG(s, a) : nullptr;
  auto it = s.heap.upper_bound(a);
  if (it == s.heap.begin()) return nullptr;
  --it;
  if (a > it->second->base + it->second->size) return nullptr;
  return &it->second;
}
static Obj* writable(State& s, Obj* o) {
  if (o->base < 0x100000000000ULL) {
    size_t lo = 0, hi = g_globals.size();
    while (lo < hi) {
      size_t m = (lo + hi) / 2;
      if (g_globals[m]->base <= o->base)
        lo = m + 1;
      else
        hi = m;
    }
    auto& p = s.gmod[lo - 1];
    if (!p)
      p = std::make_shared<Obj>(*o);
    else if (p.use_count() > 1)
      p = std::make_shared<Obj>(*p);
    return p.get();
  }
  auto& p = s.heap[o->base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
static uint64_t allocObj(State& s, uint64_t size, uint8_t kind, uint64_t align = 16,
                         uint8_t fill = 0xCD) {
  if (size > (1ULL << 28)) throw Unsup{"allocation too large: " + std::to_string(size)};
  auto o = std::make_shared<Obj>();
  uint64_t& n = kind == 1 ? s.nextStack : s.nextAddr;
  if (align < 16) align = 16;
  n = (n + align - 1) / align * align;
  o->base = n;
  o->size = size;
  o->kind = kind;
  o->b.assign(size, fill);
  n += (size + 15) / 16 * 16 + 48;  // gap: overruns land outside every object
  s.heap[o->base] = o;
  return o->base;
}
static Val loadFrom(const Obj* o, uint64_t off, unsigned n) {
  bool sym = false;
  if (!o->s.empty())
    for (unsigned i = 0; i < n; ++i)
      if (o->s[off + i].e) { sym = true; break; }
  if (!sym && n <= 8) {
    uint64_t v = 0;
    memcpy(&v, &o->b[off], n);
    return cv(n * 8, v);
  }
  E r = nullptr;  // build from high to low
  // fast path: all bytes come from one expression in order
  if (sym) {
    const SymB& f = o->s[off];
    if (f.e) {
      bool ok = true;
      for (unsigned i = 1; i < n; ++i)
        if (o->s[off + i].e != f.e || o->s[off + i].idx != f.idx + i) { ok = false; break; }
      if (ok) return fromE(mkExtract(f.e, f.idx * 8, n * 8));
    }
  }
  for (int i = (int)n - 1; i >= 0;) {
    // maximal run downwards
    E part;
    if (!o->s.empty() && o->s[off + i].e) {
      const SymB& t = o->s[off + i];
      int j = i;
      while (j > 0 && o->s[off + j - 1].e == t.e && o->s[off + j - 1].idx + 1 == o->s[off + j].idx) --j;
      part = mkExtract(t.e, o->s[off + j].idx * 8, (i - j + 1) * 8);
      i = j - 1;
    } else {
      part = mkConst(8, o->b[off + i]);
      --i;
    }
    r = r ? mkConcat(r, part) : part;
  }
  return fromE(r);
}
static void storeTo(Obj* o, uint64_t off, unsigned n, const Val& v) {
  if (v.conc()) {
    memcpy(&o->b[off], &v.v, n);
    if (!o->s.empty())
      for (unsigned i = 0; i < n; ++i) o->s[off + i].e = nullptr;
    return;
  }
  E e = toE(v);
  if (e->isConst()) {
    for (unsigned i = 0; i < n; ++i) {
      o->b[off + i] = (uint8_t)e->c.extractBitsAsZExtValue(8, i * 8);
      if (!o->s.empty()) o->s[off + i].e = nullptr;
    }
    return;
  }
  if (o->s.empty()) o->s.resize(o->size);
  for (unsigned i = 0; i < n; ++i) {
    if (e->w == n * 8)
      o->s[off + i] = {e, i};
    else
      throw Unsup{"odd store width"};
  }
}
static unsigned tz(E e) {
  switch (e->op) {
    case Op::CONST: return e->c.isZero() ? e->w : e->c.countr_zero();
    case Op::CONCAT:
      return e->k[1]->isConst() && e->k[1]->c.isZero() ? e->k[1]->w + tz(e->k[0]) : tz(e->k[1]);
    case Op::ADD: case Op::SUB: case Op::OR: case Op::XOR:
      return std::min(tz(e->k[0]), tz(e->k[1]));
    case Op::MUL: return std::min<unsigned>(e->w, tz(e->k[0]) + tz(e->k[1]));
    case Op::AND: return std::max(tz(e->k[0]), tz(e->k[1]));
    case Op::ITE: return std::min(tz(e->k[1]), tz(e->k[2]));
    case Op::ZEXT: case Op::SEXT: return std::min<unsigned>(tz(e->k[0]), e->k[0]->w);
    default: return 0;
  }
}
// Resolve an address of n bytes.  Concrete offset in *off when offE is null.
static Obj* resolve(State& s, const Val& a, uint64_t n, uint64_t& off, E& offE, const char* what) {
  offE = nullptr;
  if (a.conc()) {
    ObjP* p = find(s, a.v);
    if (!p || a.v + n > (*p)->base + (*p)->size || a.v < (*p)->base) {
      char buf[160];
      snprintf(buf, sizeof buf, "%s of %llu bytes out of bounds%s", what, (unsigned long long)n,
               a.v < 4096 ? " (null pointer)" : "");
      fail(s, "memory", buf);
    }
    off = a.v - (*p)->base;
    return p->get();
  }
  E e = toE(a);
  bumpEval();
  uint64_t k = evalE(e, *s.model).getZExtValue();
  ObjP* p = find(s, k);
  if (!p || k + n > (*p)->base + (*p)->size) {
    char buf[160];
    snprintf(buf, sizeof buf, "%s of %llu bytes out of bounds%s", what, (unsigned long long)n,
             k < 4096 ? " (null pointer)" : "");
    fail(s, "memory", buf);
  }
  ObjP keepAlive = *p;
  Obj* o = keepAlive.get();
  E rel = mk(Op::SUB, e, mkConst(64, o->base));
  E inb = mk(Op::ULE, rel, mkConst(64, o->size - n));
  bool d = decide(s, inb);
  assert(d);
  (void)d;
  p = find(s, k);
  o = p->get();
  offE = rel;
  if (rel->isConst()) {
    off = rel->c.getZExtValue();
    offE = nullptr;
  }
  return o;
}
static unsigned strideOf(E off, unsigned n, uint64_t size) {
  unsigned t = tz(off);
  unsigned st = 1;
  while (st < n && t > 0) {
    st *= 2;
    --t;
  }
  if (st > n) st = n;
  return st;
}
static Val loadMem(State& s, const Val& a, unsigned n) {
  uint64_t off = 0;
  E oe;
  Obj* o = resolve(s, a, n, off, oe, "load");
  if (!oe) return loadFrom(o, off, n);
  unsigned st = strideOf(oe, n, o->size);
  uint64_t cnt = (o->size - n) / st + 1;
  if (cnt > o_maxTable) {
    uint64_t k = concretize(s, fromE(oe));
    ObjP* p = find(s, o->base);
    return loadFrom(p->get(), k, n);
  }
  std::vector<E> tab;
  tab.reserve(cnt);
  for (uint64_t i = 0; i < cnt; ++i) tab.push_back(toE(loadFrom(o, i * st, n)));
  unsigned lg = 0;
  while ((1u << lg) < st) ++lg;
  E idx = mkExtract(oe, lg, 64 - lg);
  // drop high bits that the bound makes zero
  unsigned need = 1;
  while ((1ULL << need) <= cnt) ++need;
  if (need < idx->w) idx = mkExtract(idx, 0, need);
  return fromE(mkTable(idx, tab, 0, cnt));
}
static void storeMem(State& s, const Val& a, unsigned n, const Val& v) {
  uint64_t off = 0;
  E oe;
  Obj* o = resolve(s, a, n, off, oe, "store");
  if (o->ro && !s.initPhase) fail(s, "memory", "store to constant memory");
  if (!oe) {
    storeTo(writable(s, o), off, n, v);
    return;
  }
  unsigned st = strideOf(oe, n, o->size);
  uint64_t cnt = (o->size - n) / st + 1;
  if (cnt > o_maxTable || st < n) {
    uint64_t k = concretize(s, fromE(oe));
    storeTo(writable(s, o), k, n, v);
    return;
  }
  o = writable(s, o);
  E ve = toE(v);
  for (uint64_t i = 0; i < cnt; ++i) {
    E old = toE(loadFrom(o, i * st, n));
    E nw = mkIte(mkEq(oe, mkConst(64, i * st)), ve, old);
    storeTo(o, i * st, n, fromE(nw));
  }
}
static std::string readCStr(State& s, uint64_t a) {
  std::string r;
  for (int i = 0; i < 400; ++i) {
    ObjP* p = find(s, a + i);
    if (!p || a + i >= (*p)->base + (*p)->size) break;
    Val v = loadFrom(p->get(), a + i - (*p)->base, 1);
    if (!v.conc()) { r += '?'; continue; }
    if (!v.v) break;
    r += (char)v.v;
  }
  return r;
}
// typed load/store
static unsigned scalarW(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static Val ptrAdd(const Val& a, uint64_t k) {
  if (a.conc()) return cv(64, a.v + k);
  return fromE(mk(Op::ADD, toE(a), mkConst(64, k)));
}
static Val loadTyped(State& s, const Val& a, Type* t) {
  if (unsigned w = scalarW(t)) {
    unsigned n = (w + 7) / 8;
    if (t->isIntegerTy() && (w % 8)) {
      Val r = loadMem(s, a, n);
      if (r.conc()) return cv(w, r.v);
      return fromE(mkExtract(toE(r), 0, w));
    }
    return loadMem(s, a, n);
  }
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      r.agg->push_back(loadTyped(s, ptrAdd(a, sl->getElementOffset(i)), st->getElementType(i)));
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i)
      r.agg->push_back(loadTyped(s, ptrAdd(a, i * es), at->getElementType()));
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    if (vt->getElementType()->isIntegerTy() && vt->getElementType()->getIntegerBitWidth() % 8)
      throw Unsup{"sub-byte vector load"};
    for (uint64_t i = 0; i < vt->getNumElements(); ++i)
      r.agg->push_back(loadTyped(s, ptrAdd(a, i * es), vt->getElementType()));
  } else
    throw Unsup{"load type"};
  return r;
}
static void storeTyped(State& s, const Val& a, Type* t, const Val& v) {
  if (unsigned w = scalarW(t)) {
    unsigned n = (w + 7) / 8;
    if (w % 8) {
      Val x = v.conc() ? cv(n * 8, v.v) : fromE(mkZext(toE(v), n * 8));
      storeMem(s, a, n, x);
      return;
    }
    storeMem(s, a, n, v);
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      storeTyped(s, ptrAdd(a, sl->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i)
      storeTyped(s, ptrAdd(a, i * es), at->getElementType(), (*v.agg)[i]);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    if (vt->getElementType()->isIntegerTy() && vt->getElementType()->getIntegerBitWidth() % 8)
      throw Unsup{"sub-byte vector store"};
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); ++i)
      storeTyped(s, ptrAdd(a, i * es), vt->getElementType(), (*v.agg)[i]);
  } else
    throw Unsup{"store type"};
}

// ------------------------------------------------------------------ constants
static Val zeroOf(Type* t) {
  if (unsigned w = scalarW(t)) {
    if (w > 64) return fromE(mkConst(w, 0));
    return cv(w, 0);
  }
  Val r;
  if (t->isVoidTy()) return r;
  r.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t))
    for (auto* e : st->elements()) r.agg->push_back(zeroOf(e));
  else if (auto* at = dyn_cast<ArrayType>(t))
    for (uint64_t i = 0; i < at->getNumElements(); ++i) r.agg->push_back(zeroOf(at->getElementType()));
  else if (auto* vt = dyn_cast<FixedVectorType>(t))
    for (uint64_t i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(zeroOf(vt->getElementType()));
  return r;
}
static Val evalConst(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return cv(ci->getBitWidth(), ci->getZExtValue());
    return fromE(mkConst(ci->getValue()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (!t->isFloatTy() && !t->isDoubleTy()) {
      Val r;
      r.w = 80;
      return r;  // long double constants are rejected where they are used
    }
    APInt b = cf->getValueAPF().bitcastToAPInt();
    return cv(b.getBitWidth(), b.getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return cv(64, 0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c))
    return zeroOf(t);
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
    auto it = g_gaddr.find(gv);
    if (it == g_gaddr.end()) throw Unsup{"global without address " + gv->getName().str()};
    return cv(64, it->second);
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (auto& o : ca->operands()) r.agg->push_back(evalConst(cast<Constant>(o)));
    return r;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); ++i)
      r.agg->push_back(evalConst(cd->getElementAsConstant(i)));
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        Val b = evalConst(ce->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"};
        return cv(64, b.v + off.getZExtValue());
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast: {
        Val b = evalConst(ce->getOperand(0));
        unsigned w = scalarW(t);
        if (!w) return b;
        return cv(w, b.v);
      }
      case Instruction::Trunc: return cv(scalarW(t), evalConst(ce->getOperand(0)).v);
      case Instruction::Sub:
        return cv(scalarW(t), evalConst(ce->getOperand(0)).v - evalConst(ce->getOperand(1)).v);
      case Instruction::Add:
        return cv(scalarW(t), evalConst(ce->getOperand(0)).v + evalConst(ce->getOperand(1)).v);
      case Instruction::ICmp: {
        auto a = evalConst(ce->getOperand(0)).v, b = evalConst(ce->getOperand(1)).v;
        auto p = ce->getPredicate();
        if (p == ICmpInst::ICMP_EQ) return cv(1, a == b);
        if (p == ICmpInst::ICMP_NE) return cv(1, a != b);
        throw Unsup{"const icmp"};
      }
      default: throw Unsup{std::string("constexpr ") + ce->getOpcodeName()};
    }
  }
  throw Unsup{"constant kind"};
}
static void initMem(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        initMem(o, off + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); ++i) initMem(o, off + i * es, ca->getOperand(i));
    }
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->b[off], raw.data(), raw.size());
    return;
  }
  Val v = evalConst(c);
  if (v.w == 80 && t->isX86_FP80Ty()) return;
  unsigned n = (v.w + 7) / 8;
  Val x = v.conc() ? cv(n * 8 > 64 ? 64 : n * 8, v.v) : v;
  storeTo(o, off, n, x);
}

// ------------------------------------------------------------------ function preparation
static KFunc* prep(Function* F) {
  auto& p = g_kf[F];
  if (p) return p.get();
  p = std::make_unique<KFunc>();
  KFunc* k = p.get();
  k->F = F;
  k->merge = F->getName().contains("symmerge_");
  for (auto& m : o_merge)
    if (F->getName().contains(m)) k->merge = true;
  std::unordered_map<const Value*, int> reg;
  int n = 0;
  for (auto& a : F->args()) reg[&a] = n++;
  for (auto& bb : *F)
    for (auto& I : bb)
      if (!I.getType()->isVoidTy()) reg[&I] = n++;
  k->nregs = n;
  for (auto& bb : *F) {
    k->blockStart[&bb] = (int)k->ins.size();
    for (auto& I : bb) {
      KInst ki;
      ki.I = &I;
      if (!I.getType()->isVoidTy()) ki.dst = reg[&I];
      ki.w = scalarW(I.getType());
      for (auto& o : I.operands()) {
        Opnd op;
        auto it = reg.find(o.get());
        if (it != reg.end())
          op.reg = it->second;
        else if (auto* c = dyn_cast<Constant>(o.get())) {
          try {
            op.c = evalConst(c);
          } catch (Unsup& u) {
            op.c = cv(64, 0);  // (e.g. inline metadata); rejected if it matters
          }
        }
        ki.ops.push_back(op);
      }
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        int idx = 1;
        for (auto ti = gep_type_begin(g); ti != gep_type_end(g); ++ti, ++idx) {
          Value* ov = ti.getOperand();
          if (auto* st = ti.getStructTypeOrNull())
            ki.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ov)->getZExtValue());
          else {
            uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ov))
              ki.gepConst += ci->getSExtValue() * (int64_t)es;
            else
              ki.gep.push_back({(int64_t)es, idx});
          }
        }
      }
      if (auto* a = dyn_cast<AllocaInst>(&I)) ki.size = DL->getTypeAllocSize(a->getAllocatedType());
      k->ins.push_back(std::move(ki));
    }
  }
  return k;
}

// ------------------------------------------------------------------ scalar operations
static inline int64_t sx(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w));
}
static Val binop(State& s, unsigned opc, const Val& a, const Val& b);
static Val binopS(State& s, unsigned opc, const Val& a, const Val& b) {
  unsigned w = a.w;
  bool isdiv = opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem ||
               opc == Instruction::SRem;
  if (isdiv) {
    if (b.conc()) {
      if (b.v == 0) fail(s, "arith", "division by zero");
      if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w <= 64 && sx(b.v, w) == -1) {
        uint64_t mn = w == 64 ? 0x8000000000000000ULL : (1ULL << (w - 1));
        if (a.conc()) {
          if (a.v == mn && w >= 32) fail(s, "arith", "INT_MIN / -1");
        } else {
          ModelP m;
          E c = mkEq(toE(a), mkConst(w, mn));
          if (w >= 32 && may(s, c, m) == Res::SAT) {
            report(s, "arith", "INT_MIN / -1", m);
            E nc = mkNot(c);
            ModelP m2;
            if (may(s, nc, m2) != Res::SAT) throw Kill();
            addC(s, nc);
            s.model = m2;
          }
        }
      }
    } else {
      E z = mkEq(toE(b), mkConst(w, 0));
      ModelP m;
      Res r = may(s, z, m);
      if (r == Res::SAT) {
        report(s, "arith", "division by zero", m);
        ModelP m2;
        E nz = mkNot(z);
        if (may(s, nz, m2) != Res::SAT) throw Kill();
        addC(s, nz);
        s.model = m2;
      } else if (r == Res::UNKNOWN) {
        incomplete("solver gave no answer on a division check");
        ++g_lost;
        addC(s, mkNot(z));
      }
      if ((opc == Instruction::SDiv || opc == Instruction::SRem) && w >= 32 && w <= 64) {
        uint64_t mn = w == 64 ? 0x8000000000000000ULL : (1ULL << (w - 1));
        E c = mkAnd(mkEq(toE(a), mkConst(w, mn)), mkEq(toE(b), mkConst(APInt::getAllOnes(w))));
        r = may(s, c, m);
        if (r == Res::SAT) {
          report(s, "arith", "INT_MIN / -1", m);
          ModelP m2;
          E nc = mkNot(c);
          if (may(s, nc, m2) != Res::SAT) throw Kill();
          addC(s, nc);
          s.model = m2;
        }
      }
    }
  }
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = a.v, y = b.v;
    switch (opc) {
      case Instruction::Add: return cv(w, x + y);
      case Instruction::Sub: return cv(w, x - y);
      case Instruction::Mul: return cv(w, x * y);
      case Instruction::And: return cv(w, x & y);
      case Instruction::Or: return cv(w, x | y);
      case Instruction::Xor: return cv(w, x ^ y);
      case Instruction::Shl: return cv(w, y >= w ? 0 : x << y);
      case Instruction::LShr: return cv(w, y >= w ? 0 : x >> y);
      case Instruction::AShr: return cv(w, (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)));
      case Instruction::UDiv: return cv(w, x / y);
      case Instruction::URem: return cv(w, x % y);
      case Instruction::SDiv: {
        int64_t p = sx(x, w), q = sx(y, w);
        return cv(w, q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q));
      }
      case Instruction::SRem: {
        int64_t p = sx(x, w), q = sx(y, w);
        return cv(w, q == -1 ? 0 : (uint64_t)(p % q));
      }
      default: break;
    }
  }
  Op op;
  switch (opc) {
    case Instruction::Add: op = Op::ADD; break;
    case Instruction::Sub: op = Op::SUB; break;
    case Instruction::Mul: op = Op::MUL; break;
    case Instruction::And: op = Op::AND; break;
    case Instruction::Or: op = Op::OR; break;
    case Instruction::Xor: op = Op::XOR; break;
    case Instruction::Shl: op = Op::SHL; break;
    case Instruction::LShr: op = Op::LSHR; break;
    case Instruction::AShr: op = Op::ASHR; break;
    case Instruction::UDiv: op = Op::UDIV; break;
    case Instruction::URem: op = Op::UREM; break;
    case Instruction::SDiv: op = Op::SDIV; break;
    case Instruction::SRem: op = Op::SREM; break;
    case Instruction::FAdd: op = Op::FADD; break;
    case Instruction::FSub: op = Op::FSUB; break;
    case Instruction::FMul: op = Op::FMUL; break;
    case Instruction::FDiv: op = Op::FDIV; break;
    case Instruction::FRem: op = Op::FREM; break;
    default: throw Unsup{"binop"};
  }
  if (op >= Op::FADD && w != 32 && w != 64) throw Unsup{"long double arithmetic"};
  if (op == Op::FREM && !(a.conc() && b.conc())) throw Unsup{"symbolic frem"};
  return fromE(mk(op, toE(a), toE(b)));
}
static Val mapv(const Val& a, const std::function<Val(const Val&)>& f) {
  if (!a.agg) return f(a);
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  for (auto& x : *a.agg) r.agg->push_back(f(x));
  return r;
}
static Val mapv2(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) {
  if (!a.agg) return f(a, b);
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(f((*a.agg)[i], (*b.agg)[i]));
  return r;
}
static Val binop(State& s, unsigned opc, const Val& a, const Val& b) {
  if (!a.agg) return binopS(s, opc, a, b);
  return mapv2(a, b, [&](const Val& x, const Val& y) { return binopS(s, opc, x, y); });
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    uint64_t x = a.v, y = b.v;
    int64_t p1 = sx(x, w), q1 = sx(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return cv(1, x == y);
      case CmpInst::ICMP_NE: return cv(1, x != y);
      case CmpInst::ICMP_ULT: return cv(1, x < y);
      case CmpInst::ICMP_ULE: return cv(1, x <= y);
      case CmpInst::ICMP_UGT: return cv(1, x > y);
      case CmpInst::ICMP_UGE: return cv(1, x >= y);
      case CmpInst::ICMP_SLT: return cv(1, p1 < q1);
      case CmpInst::ICMP_SLE: return cv(1, p1 <= q1);
      case CmpInst::ICMP_SGT: return cv(1, p1 > q1);
      case CmpInst::ICMP_SGE: return cv(1, p1 >= q1);
      default: break;
    }
  }
  E x = toE(a), y = toE(b);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y));
    case CmpInst::ICMP_NE: return fromE(mkNe(x, y));
    case CmpInst::ICMP_ULT: return fromE(mk(Op::ULT, x, y));
    case CmpInst::ICMP_ULE: return fromE(mk(Op::ULE, x, y));
    case CmpInst::ICMP_UGT: return fromE(mk(Op::ULT, y, x));
    case CmpInst::ICMP_UGE: return fromE(mk(Op::ULE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mk(Op::SLT, x, y));
    case CmpInst::ICMP_SLE: return fromE(mk(Op::SLE, x, y));
    case CmpInst::ICMP_SGT: return fromE(mk(Op::SLT, y, x));
    case CmpInst::ICMP_SGE: return fromE(mk(Op::SLE, y, x));
    default: throw Unsup{"icmp"};
  }
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  if (a.w != 32 && a.w != 64) throw Unsup{"long double compare"};
  E x = toE(a), y = toE(b);
  auto nan = [](E e) { return mkFpUn(Op::FISNAN, e, 1); };
  E un = nullptr;
  auto UN = [&] {
    if (!un) un = x == y ? nan(x) : mkOr(nan(x), nan(y));
    return un;
  };
  auto B = [&](Op o, E l, E r) -> E { return mk(o, l, r); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return cv(1, 0);
    case CmpInst::FCMP_TRUE: return cv(1, 1);
    case CmpInst::FCMP_OEQ: return fromE(B(Op::FEQ, x, y));
    case CmpInst::FCMP_OGT: return fromE(B(Op::FLT, y, x));
    case CmpInst::FCMP_OGE: return fromE(B(Op::FLE, y, x));
    case CmpInst::FCMP_OLT: return fromE(B(Op::FLT, x, y));
    case CmpInst::FCMP_OLE: return fromE(B(Op::FLE, x, y));
    case CmpInst::FCMP_ONE: return fromE(mkAnd(mkNot(B(Op::FEQ, x, y)), mkNot(UN())));
    case CmpInst::FCMP_ORD: return fromE(mkNot(UN()));
    case CmpInst::FCMP_UNO: return fromE(UN());
    case CmpInst::FCMP_UEQ: return fromE(mkOr(B(Op::FEQ, x, y), UN()));
    case CmpInst::FCMP_UGT: return fromE(mkNot(B(Op::FLE, x, y)));
    case CmpInst::FCMP_UGE: return fromE(mkNot(B(Op::FLT, x, y)));
    case CmpInst::FCMP_ULT: return fromE(mkNot(B(Op::FLE, y, x)));
    case CmpInst::FCMP_ULE: return fromE(mkNot(B(Op::FLT, y, x)));
    case CmpInst::FCMP_UNE: return fromE(mkNot(B(Op::FEQ, x, y)));
    default: throw Unsup{"fcmp"};
  }
}
static Val selectV(const Val& c, const Val& a, const Val& b) {
  if (c.agg) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < c.agg->size(); ++i)
      r.agg->push_back(selectV((*c.agg)[i], (*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  if (c.conc()) return c.v ? a : b;
  if (a.agg) return mapv2(a, b, [&](const Val& x, const Val& y) { return selectV(c, x, y); });
  return fromE(mkIte(toE(c), toE(a), toE(b)));
}
static Val castV(unsigned opc, const Val& a, unsigned w) {
  switch (opc) {
    case Instruction::Trunc:
      if (a.conc()) return cv(w, a.v);
      return fromE(mkExtract(toE(a), 0, w));
    case Instruction::ZExt:
      if (a.conc() && w <= 64) return cv(w, a.v);
      return fromE(mkZext(toE(a), w));
    case Instruction::SExt:
      if (a.conc() && w <= 64) return cv(w, (uint64_t)sx(a.v, a.w));
      return fromE(mkSext(toE(a), w));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (a.conc()) return cv(w, a.v);
      if (a.w == w) return a;
      return fromE(w < a.w ? mkExtract(toE(a), 0, w) : mkZext(toE(a), w));
    case Instruction::AddrSpaceCast: return a;
    case Instruction::FPToSI: return fromE(mkFpUn(Op::FP2SI, toE(a), w));
    case Instruction::FPToUI: return fromE(mkFpUn(Op::FP2UI, toE(a), w));
    case Instruction::SIToFP: {
      if (a.w > 64) throw Unsup{"wide si2fp"};
      return fromE(mkFpUn(Op::SI2FP, toE(a), w));
    }
    case Instruction::UIToFP: return fromE(mkFpUn(Op::UI2FP, toE(a), w));
    case Instruction::FPTrunc:
    case Instruction::FPExt:
      if ((a.w != 32 && a.w != 64) || (w != 32 && w != 64)) throw Unsup{"long double conversion"};
      return fromE(mkFpUn(Op::FP2FP, toE(a), w));
    default: throw Unsup{"cast"};
  }
}
static Val flattenV(const Val& v) {
  if (!v.agg) return v;
  E r = nullptr;
  for (auto& x : *v.agg) {
    E e = toE(flattenV(x));
    r = r ? mkConcat(e, r) : e;
  }
  return fromE(r);
}
static Val unflatten(const Val& v, Type* t) {
  if (scalarW(t)) return v;
  auto* vt = cast<FixedVectorType>(t);
  unsigned ew = scalarW(vt->getElementType());
  Val r;
  r.agg = std::make_shared<std::vector<Val>>();
  E e = toE(v);
  for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(fromE(mkExtract(e, i * ew, ew)));
  return r;
}

// ------------------------------------------------------------------ control
static inline const Val& opv(Frame& f, const KInst& k, unsigned i) {
  const Opnd& o = k.ops[i];
  return o.reg >= 0 ? f.regs[o.reg] : o.c;
}
static void jump(Frame& f, const BasicBlock* to, const BasicBlock* from) {
  int pc = f.f->blockStart[to];
  // phis: parallel assignment
  std::vector<std::pair<int, Val>> w;
  int p = pc;
  for (; isa<PHINode>(f.f->ins[p].I); ++p) {
    auto* ph = cast<PHINode>(f.f->ins[p].I);
    int i = ph->getBasicBlockIndex(from);
    w.push_back({f.f->ins[p].dst, opv(f, f.f->ins[p], i)});
  }
  for (auto& x : w) f.regs[x.first] = x.second;
  f.prev = from;
  f.pc = p;
}
static void popFrame(State& s) {
  auto& st = s.th[s.cur].st;
  for (auto a : st.back().allocas) s.heap.erase(a);
  st.pop_back();
}
static void finishCall(State& s, const Val& ret) {
  // the top frame's pc points at the call/invoke
  Frame& f = s.th[s.cur].st.back();
  KInst& k = f.f->ins[f.pc];
  if (k.dst >= 0) f.regs[k.dst] = ret;
  if (auto* inv = dyn_cast<InvokeInst>(k.I))
    jump(f, inv->getNormalDest(), inv->getParent());
  else
    f.pc++;
}
static void pathEnd(State& s) {
  ++g_ended;
  for (auto& c : s.covers) ++g_covers[c];
  if ((int)g_samples.size() < o_samples || (g_ended & (g_ended - 1)) == 0) {
    Sample sm;
    fillInputs(s, *s.model, sm.inputs, sm.widths);
    bumpEval();
    for (auto& o : s.obs) {
      E e = toE(o);
      sm.obs.push_back(evalE(e, *s.model).getLimitedValue());
    }
    if (g_samples.size() < 64) g_samples.push_back(sm);
  }
}
static bool tiMatches(State& s, uint64_t ti, uint64_t target) {
  // walk the Itanium type_info graph held in memory
  if (ti == target) return true;
  {
    // type_infos of the standard library are external to the module
    static const std::map<std::string, std::string> base = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
    for (auto& kv : base) {
      auto* g = M->getNamedValue(kv.first);
      if (!g || g_gaddr[g] != ti) continue;
      std::string b = kv.second;
      while (true) {
        auto* h = M->getNamedValue(b);
        if (h && g_gaddr[h] == target) return true;
        auto it = base.find(b);
        if (it == base.end()) return false;
        b = it->second;
      }
    }
  }
  ObjP* p = find(s, ti);
  if (!p) return false;
  // same name pointer contents (duplicated type_infos)
  Val vt = loadFrom(p->get(), 0, 8);
  auto sym = [&](const char* n) -> uint64_t {
    auto* g = M->getNamedValue(n);
    return g && g_gaddr.count(g) ? g_gaddr[g] + 16 : 1;
  };
  if (vt.v == sym("_ZTVN10__cxxabiv120__si_class_type_infoE"))
    return tiMatches(s, loadFrom(p->get(), 16, 8).v, target);
  if (vt.v == sym("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
    unsigned n = (unsigned)loadFrom(p->get(), 20, 4).v;
    for (unsigned i = 0; i < n; ++i)
      if (tiMatches(s, loadFrom(p->get(), 24 + i * 16, 8).v, target)) return true;
  }
  return false;
}
static int typeId(uint64_t ti) {
  auto it = g_typeIds.find(ti);
  if (it != g_typeIds.end()) return it->second;
  int n = (int)g_typeIds.size() + 1;
  return g_typeIds[ti] = n;
}
static std::string tiName(State& s, uint64_t ti) {
  ObjP* p = find(s, ti);
  if (!p) return "?";
  Val n = loadFrom(p->get(), 8, 8);
  return demangle("_Z" + readCStr(s, n.v)).substr(0, 80);
}
// stack unwinding; the exception is (th.excObj, th.excTi)
static void unwind(State& s) {
  auto& th = s.th[s.cur];
  while (!th.st.empty()) {
    Frame& f = th.st.back();
    KInst& k = f.f->ins[f.pc];
    if (auto* inv = dyn_cast<InvokeInst>(k.I)) {
      auto* lp = inv->getLandingPadInst();
      int sel = 0;
      bool take = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) {
          Constant* c = lp->getClause(i);
          if (isa<ConstantPointerNull>(c)) {
            take = true;
            sel = typeId(0);
            break;
          }
          uint64_t t = evalConst(c).v;
          if (tiMatches(s, th.excTi, t)) {
            take = true;
            sel = typeId(t);
            break;
          }
        } else {
          // an exception filter: noexcept (empty filter) => terminate
          take = true;
          sel = -1;
          break;
        }
      }
      if (take) {
        jump(f, inv->getUnwindDest(), inv->getParent());
        // pc is at the landingpad (no phis precede it except as handled)
        KInst& lk = f.f->ins[f.pc];
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(cv(64, th.excObj));
        v.agg->push_back(cv(32, (uint32_t)sel));
        f.regs[lk.dst] = v;
        f.pc++;
        return;
      }
    } else if (auto* cl = dyn_cast<CallInst>(k.I)) {
      if (cl->doesNotThrow() && 0) fail(s, "terminate", "exception through nounwind");
    }
    if (f.f->F->doesNotThrow())
      fail(s, "terminate", "exception " + tiName(s, th.excTi) + " leaves a noexcept function");
    popFrame(s);
  }
  std::string nm = tiName(s, th.excTi);
  report(s, "exception", "uncaught exception " + nm, s.model);
  throw Kill();
}

static void schedule(State& s, bool voluntary);
static bool spinning(State& s, uint64_t a);
static bool onlyThread(const State& s) {
  for (int i = 0; i < (int)s.th.size(); ++i)
    if (i != s.cur && s.th[i].status != 1) return false;
  return true;
}
static bool childrenDone(const State& s, int t) {
  for (int i = 1; i < (int)s.th.size(); ++i)
    if (s.th[i].parent == t && s.th[i].status != 1) return false;
  return true;
}
#include "builtins.inc"

// merged calls: explore the callee completely, then join the returning states
static void mergedCall(State& s, KFunc* kf, const std::vector<Val>& args);

static void enterCall(State& s, Function* F, const std::vector<Val>& args, size_t fixed) {
  KFunc* kf = prep(F);
  kf->execs++;
  Frame nf;
  nf.f = kf;
  nf.regs.resize(kf->nregs);
  for (size_t i = 0; i < F->arg_size() && i < args.size(); ++i) {
    if (unsigned w = scalarW(F->getArg(i)->getType()))
      if (args[i].w != w) throw Unsup{"argument width mismatch calling " + F->getName().str()};
    nf.regs[i] = args[i];
  }
  for (size_t i = F->arg_size(); i < args.size(); ++i) nf.varargs.push_back(args[i]);
  // byval arguments: private copy
  for (size_t i = 0; i < F->arg_size(); ++i)
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* t = F->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(t);
      uint64_t a = allocObj(s, n, 1);
      memCopy(s, cv(64, a), nf.regs[i], n);
      nf.regs[i] = cv(64, a);
      nf.allocas.push_back(a);
    }
  if (s.th[s.cur].st.size() > 4000) fail(s, "stack", "call depth exceeds 4000");
  s.th[s.cur].st.push_back(std::move(nf));
}

static void doCall(State& s, KInst& k) {
  auto* cb = cast<CallBase>(k.I);
  Frame& f = s.th[s.cur].st.back();
  Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!F) {
    if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  }
  if (!F) {
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) {
        finishCall(s, cb->getType()->isVoidTy() ? Val() : (cb->arg_size() ? opv(f, k, 0) : zeroOf(cb->getType())));
        return;
      }
      throw Unsup{"inline asm"};
    }
    Val fp = opv(f, k, k.ops.size() - 1);
    // for invoke the callee is also the last operand
    uint64_t a = concretize(s, fp);
    auto it = g_faddr.find(a);
    if (it == g_faddr.end()) fail(s, "memory", "call through an invalid function pointer");
    F = it->second;
  }
  if (F->isIntrinsic()) {
    intrinsic(s, k, F, cb);
    return;
  }
  std::vector<Val> args;
  for (unsigned i = 0; i < cb->arg_size(); ++i) args.push_back(opv(f, k, i));
  if (builtin(s, k, F, args)) return;
  if (F->isDeclaration()) throw Unsup{"external function " + demangle(F->getName().str())};
  KFunc* kf = prep(F);
  if (kf->merge && onlyThread(s)) {
    mergedCall(s, kf, args);
    return;
  }
  enterCall(s, F, args, F->arg_size());
}

static void schedule(State& s, bool voluntary);
static bool spinning(State& s, uint64_t a);

static void step(State& s) {
  Thread& th = s.th[s.cur];
  Frame& f = th.st.back();
  KInst& k = f.f->ins[f.pc];
  Instruction* I = k.I;
  unsigned opc = I->getOpcode();
  switch (opc) {
    case Instruction::Ret: {
      Val r;
      if (I->getNumOperands()) r = opv(f, k, 0);
      popFrame(s);
      if (th.st.empty()) {
        th.status = 1;
        if (s.cur == 0) {
          pathEnd(s);
          throw Kill();
        }
        schedule(s, true);
        return;
      }
      finishCall(s, r);
      return;
    }
    case Instruction::Br: {
      auto* br = cast<BranchInst>(I);
      if (br->isUnconditional()) {
        jump(f, br->getSuccessor(0), I->getParent());
        return;
      }
      Val c = opv(f, k, 0);
      bool d = c.conc() ? c.v != 0 : decide(s, toE(c));
      Frame& f2 = s.th[s.cur].st.back();
      jump(f2, br->getSuccessor(d ? 0 : 1), I->getParent());
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val c = opv(f, k, 0);
      if (!c.conc()) {
        // direction under the model; everything else at this program point in another state
        E ce = toE(c);
        bumpEval();
        APInt v = evalE(ce, *s.model);
        auto cs = sw->findCaseValue(ConstantInt::get(I->getContext(), v));
        E cond;
        if (cs != sw->case_default()) {
          // group the cases that share the destination
          cond = mkBool(false);
          for (auto& cc : sw->cases())
            if (cc.getCaseSuccessor() == cs->getCaseSuccessor())
              cond = mkOr(cond, mkEq(ce, mkConst(cc.getCaseValue()->getValue())));
          bool d = decide(s, cond);
          assert(d);
          (void)d;
          jump(s.th[s.cur].st.back(), cs->getCaseSuccessor(), I->getParent());
        } else {
          cond = mkBool(true);
          for (auto& cc : sw->cases())
            if (cc.getCaseSuccessor() != sw->getDefaultDest())
              cond = mkAnd(cond, mkNe(ce, mkConst(cc.getCaseValue()->getValue())));
          bool d = decide(s, cond);
          assert(d);
          (void)d;
          jump(s.th[s.cur].st.back(), sw->getDefaultDest(), I->getParent());
        }
        return;
      }
      auto cs = sw->findCaseValue(
          ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.v));
      jump(f, cs->getCaseSuccessor(), I->getParent());
      return;
    }
    case Instruction::Unreachable: fail(s, "unreachable", "control reached 'unreachable'");
    case Instruction::Invoke:
    case Instruction::Call: doCall(s, k); return;
    case Instruction::Resume: {
      Val v = opv(f, k, 0);
      th.excObj = (*v.agg)[0].v;
      popFrame(s);
      unwind(s);
      return;
    }
    case Instruction::Alloca: {
      Val n = opv(f, k, 0);
      uint64_t cnt = concretize(s, n);
      Frame& f2 = s.th[s.cur].st.back();
      uint64_t a = allocObj(s, k.size * cnt, 1, cast<AllocaInst>(I)->getAlign().value());
      f2.allocas.push_back(a);
      f2.regs[k.dst] = cv(64, a);
      f2.pc++;
      return;
    }
    case Instruction::Load: {
      Val r = loadTyped(s, opv(f, k, 0), I->getType());
      Frame& f2 = s.th[s.cur].st.back();
      f2.regs[k.dst] = r;
      f2.pc++;
      return;
    }
    case Instruction::Store: {
      Val v = opv(f, k, 0), a = opv(f, k, 1);
      storeTyped(s, a, I->getOperand(0)->getType(), v);
      s.th[s.cur].st.back().pc++;
      return;
    }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(I);
      Val a = opv(f, k, 0), v = opv(f, k, 1);
      Val old = loadTyped(s, a, rm->getType());
      Val nv;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v); break;
        case AtomicRMWInst::Max: nv = selectV(icmp(CmpInst::ICMP_SGT, old, v), old, v); break;
        case AtomicRMWInst::Min: nv = selectV(icmp(CmpInst::ICMP_SLT, old, v), old, v); break;
        case AtomicRMWInst::UMax: nv = selectV(icmp(CmpInst::ICMP_UGT, old, v), old, v); break;
        case AtomicRMWInst::UMin: nv = selectV(icmp(CmpInst::ICMP_ULT, old, v), old, v); break;
        default: throw Unsup{"atomicrmw op"};
      }
      storeTyped(s, a, rm->getType(), nv);
      Frame& f2 = s.th[s.cur].st.back();
      f2.regs[k.dst] = old;
      f2.pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(I);
      Val a = opv(f, k, 0), cmp = opv(f, k, 1), nv = opv(f, k, 2);
      Type* t = cx->getCompareOperand()->getType();
      Val old = loadTyped(s, a, t);
      Val eq = icmp(CmpInst::ICMP_EQ, old, cmp);
      storeTyped(s, a, t, selectV(eq, nv, old));
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      r.agg->push_back(old);
      r.agg->push_back(eq);
      Frame& f2 = s.th[s.cur].st.back();
      f2.regs[k.dst] = r;
      f2.pc++;
      return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::GetElementPtr: {
      Val b = opv(f, k, 0);
      if (b.agg) throw Unsup{"vector gep"};
      if (k.gepConst) b = ptrAdd(b, (uint64_t)k.gepConst);
      for (auto& g : k.gep) {
        Val i = opv(f, k, g.second);
        if (i.agg) throw Unsup{"vector gep"};
        if (i.conc() && b.conc())
          b = cv(64, b.v + (uint64_t)(sx(i.v, i.w) * g.first));
        else {
          E ie = toE(i);
          ie = ie->w < 64 ? mkSext(ie, 64) : mkExtract(ie, 0, 64);
          b = fromE(mk(Op::ADD, toE(b), mk(Op::MUL, ie, mkConst(64, (uint64_t)g.first))));
        }
      }
      f.regs[k.dst] = b;
      f.pc++;
      return;
    }
    case Instruction::ICmp: {
      auto p = cast<ICmpInst>(I)->getPredicate();
      const Val &a = opv(f, k, 0), &b = opv(f, k, 1);
      f.regs[k.dst] = a.agg ? mapv2(a, b, [&](const Val& x, const Val& y) { return icmp(p, x, y); })
                            : icmp(p, a, b);
      f.pc++;
      return;
    }
    case Instruction::FCmp: {
      auto p = cast<FCmpInst>(I)->getPredicate();
      const Val &a = opv(f, k, 0), &b = opv(f, k, 1);
      f.regs[k.dst] = mapv2(a, b, [&](const Val& x, const Val& y) { return fcmp(p, x, y); });
      f.pc++;
      return;
    }
    case Instruction::Select: {
      Val r = selectV(opv(f, k, 0), opv(f, k, 1), opv(f, k, 2));
      f.regs[k.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::FNeg: {
      f.regs[k.dst] = mapv(opv(f, k, 0), [](const Val& x) {
        if (x.w != 32 && x.w != 64) throw Unsup{"long double neg"};
        return fromE(mk(Op::XOR, toE(x), mkConst(APInt::getSignMask(x.w))));
      });
      f.pc++;
      return;
    }
    case Instruction::Freeze: {
      Val r = opv(f, k, 0);
      f.regs[k.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::BitCast: {
      Val a = opv(f, k, 0);
      Type* t = I->getType();
      if (a.agg || t->isVectorTy()) a = unflatten(flattenV(a), t);
      f.regs[k.dst] = a;
      f.pc++;
      return;
    }
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I);
      Val a = opv(f, k, 0);
      for (unsigned i : ev->indices()) {
        Val t = (*a.agg)[i];
        a = t;
      }
      f.regs[k.dst] = a;
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins =
          [&](const Val& a, ArrayRef<unsigned> ix, const Val& v) -> Val {
        if (ix.empty()) return v;
        Val r;
        r.agg = std::make_shared<std::vector<Val>>(*a.agg);
        (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.drop_front(), v);
        return r;
      };
      Val r = ins(opv(f, k, 0), iv->getIndices(), opv(f, k, 1));
      f.regs[k.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::ExtractElement: {
      Val v = opv(f, k, 0), i = opv(f, k, 1);
      if (i.conc()) {
        if (i.v >= v.agg->size()) throw Unsup{"extractelement range"};
        Val t = (*v.agg)[i.v];
        f.regs[k.dst] = t;
      } else {
        std::vector<E> tab;
        for (auto& x : *v.agg) tab.push_back(toE(x));
        f.regs[k.dst] = fromE(mkTable(toE(i), tab, 0, tab.size()));
      }
      f.pc++;
      return;
    }
    case Instruction::InsertElement: {
      Val v = opv(f, k, 0), x = opv(f, k, 1), i = opv(f, k, 2);
      if (!i.conc()) throw Unsup{"symbolic insertelement"};
      Val r;
      r.agg = std::make_shared<std::vector<Val>>(*v.agg);
      (*r.agg)[i.v] = x;
      f.regs[k.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      Val a = opv(f, k, 0), b = opv(f, k, 1);
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      int n = (int)a.agg->size();
      for (int m : sv->getShuffleMask())
        r.agg->push_back(m < 0 ? zeroOf(sv->getType()->getElementType())
                               : (m < n ? (*a.agg)[m] : (*b.agg)[m - n]));
      f.regs[k.dst] = r;
      f.pc++;
      return;
    }
    case Instruction::LandingPad: f.pc++; return;  // value set by unwind()
    case Instruction::VAArg: throw Unsup{"va_arg"};
    default: break;
  }
  if (I->isBinaryOp()) {
    Val r = binop(s, opc, opv(f, k, 0), opv(f, k, 1));
    Frame& f2 = s.th[s.cur].st.back();
    f2.regs[k.dst] = r;
    f2.pc++;
    return;
  }
  if (I->isCast()) {
    unsigned w = scalarW(I->getType()->getScalarType());
    if (!w) throw Unsup{"cast to an unsupported type"};
    Val a = opv(f, k, 0);
    if (!a.agg && a.w == 80) throw Unsup{"long double"};
    f.regs[k.dst] = mapv(a, [&](const Val& x) { return castV(opc, x, w); });
    f.pc++;
    return;
  }
  throw Unsup{std::string("instruction ") + I->getOpcodeName()};
}

// choose the next thread; a preemption when the current one could continue
static void schedule(State& s, bool voluntary) {
  std::vector<int> en;
  for (int i = 0; i < (int)s.th.size(); ++i) {
    if (s.th[i].status == 0) en.push_back(i);
    if (s.th[i].status == 2 && childrenDone(s, i)) en.push_back(i);  // joiner wakes when all it started are done
  }
  if (en.empty()) fail(s, "deadlock", "no thread can run");
  if (!voluntary && s.preempt >= o_preempt) return;  // bound reached: keep running
  if (en.size() == 1) {
    s.cur = en[0];
    if (s.th[s.cur].status == 2) s.th[s.cur].status = 0;
    return;
  }
  int n = s.nameCnt["sched"]++;
  static std::map<int, E> schedVars;
  E& v = schedVars[n];
  if (!v) v = mkVar("sched", 8);
  s.inputs.push_back({v->aux});
  int before = s.cur;
  for (size_t i = en.size(); i-- > 0;) {
    int t = en[i];
    State* tgt = &s;
    StateP nn;
    if (i) {
      nn = cloneState(s);
      tgt = nn.get();
      ++g_forks;
    }
    auto m = std::make_shared<Model>(*tgt->model);
    if (m->size() <= v->aux) m->resize(v->aux + 1, 0);
    (*m)[v->aux] = t;
    tgt->model = m;
    tgt->cs.push_back(mkEq(v, mkConst(8, t)));
    if (!voluntary && t != before) tgt->preempt++;
    tgt->cur = t;
    if (tgt->th[t].status == 2) tgt->th[t].status = 0;
    if (nn) pushState(std::move(nn));
  }
}

// a thread that keeps looking at one shared address is waiting for another thread: let the next one run
static bool spinning(State& s, uint64_t a) {
  Thread& t = s.th[s.cur];
  if (t.lastAddr != a) { t.lastAddr = a; t.spin = 0; }
  if (++t.spin <= 4) return false;
  int n = (int)s.th.size();
  for (int d = 1; d < n; ++d) {
    int i = (s.cur + d) % n;
    if (s.th[i].status == 0) { s.cur = i; t.spin = 0; return true; }
  }
  return false;
}

// run until the state ends, or its stack becomes shallower than stopDepth
static bool runState(State& s, size_t stopDepth) {
  uint64_t localSteps = 0;
  try {
    while (true) {
      if (stopDepth && s.th[s.cur].st.size() < stopDepth) return true;
      ++s.steps;
      ++g_steps;
      static const char* tr = getenv("SYM_TRACE");
      if (tr && s.steps % (unsigned)atoi(tr) == 0) {
        fprintf(stderr, "%llu", (unsigned long long)s.steps);
        for (auto& fr : s.th[s.cur].st) fprintf(stderr, " %s", fr.f->F->getName().str().c_str());
        fprintf(stderr, "\n");
      }
      if ((++localSteps & 0xfff) == 0) {
        if (elapsed() > o_maxTime) {
          incomplete("time budget exhausted");
          ++g_lost;
          return false;
        }
      }
      if (s.steps > o_maxSteps) {
        report(s, "steps", "path exceeds the step bound (possible non-termination)", s.model);
        ++g_lost;
        return false;
      }
      step(s);
    }
  } catch (Kill&) {
    ++g_lost;
    return false;
  } catch (Unsup& u) {
    incomplete("unsupported: " + u.m + " at " + where(s));
    ++g_lost;
    return false;
  }
}

static void explore(StateP init) {
  Worklist wl;
  g_wl.push_back(&wl);
  wl.v.push_back(std::move(init));
  while (!wl.v.empty()) {
    StateP s = std::move(wl.v.back());
    wl.v.pop_back();
    ++g_paths;
    if (g_paths > o_maxPaths) {
      incomplete("path budget exhausted");
      break;
    }
    if (elapsed() > o_maxTime) {
      incomplete("time budget exhausted");
      break;
    }
    runState(*s, 0);
  }
  g_wl.pop_back();
}

static E conj(const std::vector<E>& cs, size_t from) {
  E c = mkBool(true);
  for (size_t i = from; i < cs.size(); ++i) c = mkAnd(c, cs[i]);
  return c;
}
static bool mergeVal(E c, const Val& a, const Val& b, Val& out) {  // c ? a : b
  if (a.agg || b.agg) {
    if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) return false;
    out.agg = std::make_shared<std::vector<Val>>(a.agg->size());
    for (size_t i = 0; i < a.agg->size(); ++i)
      if (!mergeVal(c, (*a.agg)[i], (*b.agg)[i], (*out.agg)[i])) return false;
    return true;
  }
  if (a.w != b.w) {
    if (a.w == 0) { out = b; return true; }
    if (b.w == 0) { out = a; return true; }
    return false;
  }
  if (a.w == 0) { out = a; return true; }
  if (a.e == b.e && a.v == b.v) { out = a; return true; }
  out = fromE(mkIte(c, toE(a), toE(b)));
  return true;
}
static bool mergeObj(E c, const Obj& a, Obj& b) {  // b := c ? a : b
  if (a.size != b.size) return false;
  // word-wise where possible so that whole values stay whole
  uint64_t i = 0;
  while (i < a.size) {
    auto symA = [&](uint64_t j) { return !a.s.empty() && a.s[j].e; };
    auto symB = [&](uint64_t j) { return !b.s.empty() && b.s[j].e; };
    auto same = [&](uint64_t j) {
      bool x = symA(j), y = symB(j);
      if (x != y) return false;
      if (x) return a.s[j].e == b.s[j].e && a.s[j].idx == b.s[j].idx;
      return a.b[j] == b.b[j];
    };
    if (same(i)) { ++i; continue; }
    uint64_t n = 8;
    uint64_t st = i & ~7ULL;
    if (st + n > a.size) { st = i; n = 1; }
    Val x = loadFrom(&a, st, (unsigned)n), y = loadFrom(&b, st, (unsigned)n);
    Val r = fromE(mkIte(c, toE(x), toE(y)));
    storeTo(&b, st, (unsigned)n, r);
    i = st + n;
  }
  return true;
}
static void mergedCall(State& s, KFunc* kf, const std::vector<Val>& args) {
  size_t depth = s.th[s.cur].st.size();
  int me = s.cur;
  size_t prefix = s.cs.size();
  uint64_t lost0 = g_lost;
  Worklist wl;
  std::vector<StateP> done;
  auto init = cloneState(s);
  enterCall(*init, kf->F, args, kf->F->arg_size());
  g_wl.push_back(&wl);
  wl.v.push_back(std::move(init));
  bool aborted = false;
  while (!wl.v.empty()) {
    StateP t = std::move(wl.v.back());
    wl.v.pop_back();
    if (elapsed() > o_maxTime) {
      incomplete("time budget exhausted");
      aborted = true;
      break;
    }
    if (runState(*t, depth + 1)) done.push_back(std::move(t));
  }
  g_wl.pop_back();
  if (aborted || done.empty()) throw Kill();
  bool lost = g_lost != lost0;
  // every returning state has executed finishCall in the caller frame; join them pairwise
  StateP acc = std::move(done[0]);
  std::vector<StateP> separate;
  E any = conj(acc->cs, prefix);
  for (size_t i = 1; i < done.size(); ++i) {
    StateP& b = done[i];
    bool ok = acc->inputs.size() == b->inputs.size() && acc->obs.size() == b->obs.size() &&
              acc->th[me].st.size() == b->th[me].st.size() && acc->covers == b->covers &&
              acc->th[me].st.size() == depth && acc->th[me].st.back().pc == b->th[me].st.back().pc &&
              acc->th[me].caught == b->th[me].caught;
    if (ok) {
      for (auto& kv : b->heap) {
        auto it = acc->heap.find(kv.first);
        if (it != acc->heap.end() && it->second->size != kv.second->size) { ok = false; break; }
      }
    }
    if (!ok) {
      separate.push_back(std::move(b));
      continue;
    }
    E cb = conj(b->cs, prefix);  // b's path condition beyond the prefix
    // acc := cb ? b : acc
    for (size_t fi = 0; fi < acc->th[me].st.size(); ++fi) {
      auto& fa = acc->th[me].st[fi];
      auto& fb = b->th[me].st[fi];
      if (fi + 1 < acc->th[me].st.size()) continue;  // callers below are untouched
      for (size_t r = 0; r < fa.regs.size(); ++r) {
        Val o;
        if (!mergeVal(cb, fb.regs[r], fa.regs[r], o)) throw Unsup{"merge of registers"};
        fa.regs[r] = o;
      }
    }
    for (auto& kv : b->heap) {
      auto it = acc->heap.find(kv.first);
      if (it == acc->heap.end()) {
        acc->heap[kv.first] = kv.second;
        continue;
      }
      if (it->second == kv.second) continue;
      auto n = std::make_shared<Obj>(*it->second);
      if (!mergeObj(cb, *kv.second, *n)) throw Unsup{"merge of objects"};
      it->second = n;
    }
    for (auto& kv : b->gmod) {
      auto it = acc->gmod.find(kv.first);
      ObjP cur = it == acc->gmod.end() ? g_globals[kv.first] : it->second;
      if (cur == kv.second) continue;
      auto n = std::make_shared<Obj>(*cur);
      if (!mergeObj(cb, *kv.second, *n)) throw Unsup{"merge of globals"};
      acc->gmod[kv.first] = n;
    }
    for (auto& kv : acc->gmod) {
      if (b->gmod.count(kv.first)) continue;
      auto n = std::make_shared<Obj>(*kv.second);
      if (n.get() == g_globals[kv.first].get()) continue;
      if (!mergeObj(cb, *g_globals[kv.first], *n)) throw Unsup{"merge of globals"};
      kv.second = n;
    }
    for (size_t o = 0; o < acc->obs.size(); ++o) {
      Val r;
      if (!mergeVal(cb, b->obs[o], acc->obs[o], r)) throw Unsup{"merge of observations"};
      acc->obs[o] = r;
    }
    acc->nextAddr = std::max(acc->nextAddr, b->nextAddr);
    acc->nextStack = std::max(acc->nextStack, b->nextStack);
    acc->steps = std::max(acc->steps, b->steps);
    any = mkOr(any, cb);
    ++g_merges;
  }
  acc->cs.resize(prefix);
  bool single = separate.empty() && !lost;
  if (!single) addC(*acc, any);
  for (auto& t : separate) pushState(std::move(t));
  // replace s by acc
  State tmp = *acc;
  s = tmp;
}

// ------------------------------------------------------------------ set-up
static void setupGlobals() {
  uint64_t fa = 0x1000;
  for (auto& F : *M) {
    g_gaddr[&F] = fa;
    g_faddr[fa] = &F;
    fa += 16;
  }
  std::vector<GlobalVariable*> gs;
  for (auto& G : M->globals()) {
    auto o = std::make_shared<Obj>();
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 256;
    if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 256);
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
    g_globalNext = (g_globalNext + al - 1) / al * al;
    o->base = g_globalNext;
    o->size = sz;
    o->b.assign(sz, 0);
    g_globalNext += (sz + 15) / 16 * 16 + 48;
    g_gaddr[&G] = o->base;
    g_globals.push_back(o);
    gs.push_back(&G);
  }
  for (auto& A : M->aliases()) {
    (void)A;
  }
  for (size_t i = 0; i < gs.size(); ++i)
    if (gs[i]->hasInitializer()) {
      try {
        initMem(g_globals[i].get(), 0, gs[i]->getInitializer());
      } catch (Unsup& u) {
        if (getenv("SYM_DEBUG")) fprintf(stderr, "global %s: %s\n", gs[i]->getName().str().c_str(), u.m.c_str());
      }
      g_globals[i]->ro = gs[i]->isConstant();
    }
}

static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void writeOut() {
  std::ostringstream o;
  o << "{\n\"entry\":" << js(o_entry) << ",\n\"paths\":" << g_paths << ",\"ended\":" << g_ended
    << ",\"assume_killed\":" << g_assumeKilled << ",\"steps\":" << g_steps << ",\"forks\":" << g_forks
    << ",\"merges\":" << g_merges << ",\"asserts\":" << g_asserts
    << ",\"assert_queries\":" << g_assertQueries << ",\"violations_total\":" << g_violTotal
    << ",\n\"queries\":" << g_sstats.queries << ",\"solver_runs\":" << g_sstats.discharged
    << ",\"by_model\":" << g_sstats.byModel << ",\"by_cache\":" << g_sstats.byCache
    << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat
    << ",\"unknown\":" << g_sstats.unknown << ",\"portfolio\":" << g_sstats.portfolio
    << ",\"solver_s\":" << g_sstats.time << ",\"max_query_s\":" << g_sstats.maxTime
    << ",\"exprs\":" << exprCount() << ",\"wall_s\":" << elapsed() << ",\n\"incomplete\":{";
  bool first = true;
  for (auto& kv : g_incomplete) {
    o << (first ? "" : ",") << js(kv.first) << ":" << kv.second;
    first = false;
  }
  o << "},\n\"covers\":{";
  first = true;
  for (auto& kv : g_covers) {
    o << (first ? "" : ",") << js(kv.first) << ":" << kv.second;
    first = false;
  }
  o << "},\n\"violations\":[";
  first = true;
  auto ins = [&](const std::vector<std::pair<std::string, uint64_t>>& in, const std::vector<unsigned>& ws) {
    o << "[";
    for (size_t i = 0; i < in.size(); ++i)
      o << (i ? "," : "") << "[" << js(in[i].first) << "," << ws[i] << ",\"" << in[i].second << "\"]";
    o << "]";
  };
  for (auto& v : g_viol) {
    o << (first ? "" : ",\n") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg)
      << ",\"where\":" << js(v.where) << ",\"inputs\":";
    ins(v.inputs, v.widths);
    o << "}";
    first = false;
  }
  o << "],\n\"samples\":[";
  first = true;
  for (auto& v : g_samples) {
    o << (first ? "" : ",\n") << "{\"inputs\":";
    ins(v.inputs, v.widths);
    o << ",\"obs\":[";
    for (size_t i = 0; i < v.obs.size(); ++i) o << (i ? "," : "") << "\"" << v.obs[i] << "\"";
    o << "]}";
    first = false;
  }
  o << "],\n\"functions\":[";
  first = true;
  for (auto& kv : g_kf)
    if (kv.second && kv.second->execs) {
      o << (first ? "" : ",\n") << "[" << js(demangle(kv.first->getName().str())) << ","
        << kv.second->execs << "," << kv.second->ins.size() << "]";
      first = false;
    }
  o << "]}\n";
  if (o_out.empty())
    std::cout << o.str();
  else {
    std::ofstream f(o_out);
    f << o.str();
  }
}

// function multiversioning: the default version stands for all of them
static void resolveIFuncs() {
  std::vector<GlobalIFunc*> v;
  for (auto& g : M->ifuncs()) v.push_back(&g);
  for (auto* g : v) {
    std::string n = g->getName().str();
    Function* f = nullptr;
    if (n.size() > 6 && n.substr(n.size() - 6) == ".ifunc") f = M->getFunction(n.substr(0, n.size() - 6));
    if (!f) f = M->getFunction(n + ".default");
    if (!f) continue;
    g->replaceAllUsesWith(f);
    g->eraseFromParent();
  }
}
// insert a yield point before every access to memory that is not a local variable
static int instrument(const std::string& in, const std::string& out) {
  SMDiagnostic err;
  M = parseIRFile(in, err, g_llctx);
  if (!M) { err.print("symex", errs()); return 2; }
  resolveIFuncs();
  auto* pt = PointerType::get(g_llctx, 0);
  FunctionCallee y = M->getOrInsertFunction("sym_yield_addr", FunctionType::get(Type::getVoidTy(g_llctx), {pt}, false));
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    std::vector<std::pair<Instruction*, Value*>> at;
    for (auto& B : F)
      for (auto& I : B) {
        Value* p = nullptr;
        if (auto* l = dyn_cast<LoadInst>(&I)) p = l->getPointerOperand();
        else if (auto* st = dyn_cast<StoreInst>(&I)) p = st->getPointerOperand();
        else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) p = x->getPointerOperand();
        else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) p = r->getPointerOperand();
        else if (auto* m = dyn_cast<MemIntrinsic>(&I)) p = m->getDest();
        if (!p || isa<AllocaInst>(getUnderlyingObject(p))) continue;
        at.push_back({&I, p});
      }
    for (auto& x : at) CallInst::Create(y, {x.second}, "", x.first);
  }
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  WriteBitcodeToFile(*M, os);
  return 0;
}
static void* mainThread(void* av) {
  char** argv = (char**)av;
  std::string bc;
  for (int i = 1; argv[i]; ++i) {
    std::string a = argv[i];
    auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--entry") o_entry = nxt();
    else if (a == "--out") o_out = nxt();
    else if (a == "--max-time") o_maxTime = atof(nxt().c_str());
    else if (a == "--max-steps") o_maxSteps = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--max-paths") o_maxPaths = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--timeout-ms") g_timeoutMs = atoi(nxt().c_str());
    else if (a == "--portfolio-s") g_portfolioSec = atoi(nxt().c_str());
    else if (a == "--samples") o_samples = atoi(nxt().c_str());
    else if (a == "--merge") o_merge.push_back(nxt());
    else if (a == "--preempt") o_preempt = atoi(nxt().c_str());
    else if (a == "--max-table") o_maxTable = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--tmp") g_tmpDir = nxt();
    else if (a == "--instrument") _exit(instrument(bc, nxt()));
    else bc = a;
  }
  g_t0 = std::chrono::steady_clock::now();
  SMDiagnostic err;
  M = parseIRFile(bc, err, g_llctx);
  if (!M) {
    err.print("symex", errs());
    exit(2);
  }
  DL = &M->getDataLayout();
  resolveIFuncs();
  setupGlobals();
  auto s = std::make_unique<State>();
  s->model = std::make_shared<Model>();
  s->th.resize(1);
  // static initialisers, in order, concretely
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> cs;
      for (auto& o : ca->operands()) {
        auto* st = cast<ConstantStruct>(o);
        if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
          cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
      }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : cs) {
        Worklist wl;
        g_wl.push_back(&wl);
        // a dummy caller frame is not needed: run until the stack is empty
        s->initPhase = true;
        enterCall(*s, c.second, {}, 0);
        try {
          while (!s->th[0].st.empty()) {
            Frame& f = s->th[0].st.back();
            if (isa<ReturnInst>(f.f->ins[f.pc].I) && s->th[0].st.size() == 1) {
              popFrame(*s);
              break;
            }
            step(*s);
            ++g_steps;
          }
        } catch (Unsup& u) {
          fprintf(stderr, "static initialiser %s: unsupported: %s at %s\n",
                  c.second->getName().str().c_str(), u.m.c_str(), where(*s).c_str());
          incomplete("static initialiser: " + u.m);
          s->th[0].st.clear();
        } catch (Kill&) {
          fprintf(stderr, "static initialiser %s failed\n", c.second->getName().str().c_str());
          incomplete("static initialiser failed: " + c.second->getName().str());
          for (auto& v : g_viol) fprintf(stderr, "  %s %s\n", v.kind.c_str(), v.msg.c_str());
          g_viol.clear();
          s->th[0].st.clear();
        }
        s->initPhase = false;
        s->th[0].status = 0;
        g_wl.pop_back();
      }
    }
  }
  // promote initialised globals
  for (auto& kv : s->gmod) g_globals[kv.first] = kv.second;
  s->gmod.clear();
  s->steps = 0;
  Function* F = M->getFunction(o_entry);
  if (!F) {
    fprintf(stderr, "no entry %s\n", o_entry.c_str());
    exit(2);
  }
  {
    Worklist wl;
    g_wl.push_back(&wl);
    enterCall(*s, F, {}, 0);
    g_wl.pop_back();
  }
  explore(std::move(s));
  writeOut();
  fflush(stdout);
  _exit(0);
}
int main(int argc, char** argv) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 2048ULL << 20);
  pthread_t t;
  if (pthread_create(&t, &at, mainThread, argv)) {
    perror("pthread_create");
    return 2;
  }
  pthread_join(t, nullptr);
  return 0;
}
