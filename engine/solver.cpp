#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <memory>
#include <vector>
#include <functional>
#include <ostream>
#include <iostream>
#include <string>
#include <sstream>
#include <limits>
#include <cassert>
#define private public
#include <z3++.h>
#undef private
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
using llvm::APInt;

SolverStats g_sstats;
unsigned g_timeoutMs = 10000;
unsigned g_portfolioSec = 120;
std::string g_tmpDir = "/tmp";

static z3::context& ctx() {
  static z3::context* c = [] {
    // not reference counted: every term stays alive until the process ends
    Z3_config cfg = Z3_mk_config();
    return new z3::context(Z3_mk_context(cfg));
  }();
  return *c;
}
static Z3_ast keep(Z3_ast a) {
  Z3_inc_ref(ctx(), a);
  return a;
}
static void chk(Z3_ast a, E e) {
  if (!a || Z3_get_error_code(ctx()) != Z3_OK) {
    fprintf(stderr, "z3 error: %s on %s\n", Z3_get_error_msg(ctx(), Z3_get_error_code(ctx())),
            exprStr(e, 3).c_str());
    abort();
  }
}
static Z3_ast tBool(E e);
static Z3_ast tBV(E e);
static Z3_sort fpSort(unsigned w) {
  return w == 64 ? Z3_mk_fpa_sort_64(ctx()) : Z3_mk_fpa_sort_32(ctx());
}
static std::unordered_map<E, Z3_ast> g_fpc;
static bool fpValued(E e) {
  switch (e->op) {
    case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FREM: case Op::FMA:
    case Op::FSQRT: case Op::FRTI: case Op::SI2FP: case Op::UI2FP: case Op::FP2FP: return true;
    default: return false;
  }
}
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(ctx()); }
static Z3_ast tFP(E e) {
  auto it = g_fpc.find(e);
  if (it != g_fpc.end()) return it->second;
  Z3_context c = ctx();
  Z3_ast r = nullptr;
  switch (e->op) {
    case Op::FADD: r = Z3_mk_fpa_add(c, rne(), tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FSUB: r = Z3_mk_fpa_sub(c, rne(), tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FMUL: r = Z3_mk_fpa_mul(c, rne(), tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FDIV: r = Z3_mk_fpa_div(c, rne(), tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FMA: r = Z3_mk_fpa_fma(c, rne(), tFP(e->k[0]), tFP(e->k[1]), tFP(e->k[2])); break;
    case Op::FSQRT: r = Z3_mk_fpa_sqrt(c, rne(), tFP(e->k[0])); break;
    case Op::FRTI: {
      Z3_ast rm = e->aux == RM_NEAREST ? rne()
                  : e->aux == RM_UP    ? Z3_mk_fpa_round_toward_positive(c)
                  : e->aux == RM_DOWN  ? Z3_mk_fpa_round_toward_negative(c)
                  : e->aux == RM_ZERO  ? Z3_mk_fpa_round_toward_zero(c)
                                       : Z3_mk_fpa_round_nearest_ties_to_away(c);
      r = Z3_mk_fpa_round_to_integral(c, rm, tFP(e->k[0]));
      break;
    }
    case Op::SI2FP: r = Z3_mk_fpa_to_fp_signed(c, rne(), tBV(e->k[0]), fpSort(e->w)); break;
    case Op::UI2FP: r = Z3_mk_fpa_to_fp_unsigned(c, rne(), tBV(e->k[0]), fpSort(e->w)); break;
    case Op::FP2FP: r = Z3_mk_fpa_to_fp_float(c, rne(), tFP(e->k[0]), fpSort(e->w)); break;
    case Op::ITE:
      r = Z3_mk_ite(c, tBool(e->k[0]), tFP(e->k[1]), tFP(e->k[2]));
      break;
    default: r = Z3_mk_fpa_to_fp_bv(c, tBV(e), fpSort(e->w)); break;
  }
  chk(r, e);
  keep(r);
  g_fpc[e] = r;
  return r;
}

static Z3_ast tBool(E e) {
  assert(e->w == 1);
  if (e->z3bool) return (Z3_ast)e->z3bool;
  Z3_context c = ctx();
  Z3_ast r = nullptr;
  switch (e->op) {
    case Op::CONST: r = e->c.getBoolValue() ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case Op::AND: case Op::OR: case Op::XOR: {
      if (e->op == Op::XOR && e->k[1]->isConst() && e->k[1]->c.getBoolValue()) {
        r = Z3_mk_not(c, tBool(e->k[0]));
        break;
      }
      Z3_ast a[2] = {tBool(e->k[0]), tBool(e->k[1])};
      r = e->op == Op::AND ? Z3_mk_and(c, 2, a)
          : e->op == Op::OR ? Z3_mk_or(c, 2, a) : Z3_mk_xor(c, a[0], a[1]);
      break;
    }
    case Op::EQ:
      r = e->k[0]->w == 1 ? Z3_mk_iff(c, tBool(e->k[0]), tBool(e->k[1]))
                          : Z3_mk_eq(c, tBV(e->k[0]), tBV(e->k[1]));
      break;
    case Op::ULT: r = Z3_mk_bvult(c, tBV(e->k[0]), tBV(e->k[1])); break;
    case Op::ULE: r = Z3_mk_bvule(c, tBV(e->k[0]), tBV(e->k[1])); break;
    case Op::SLT: r = Z3_mk_bvslt(c, tBV(e->k[0]), tBV(e->k[1])); break;
    case Op::SLE: r = Z3_mk_bvsle(c, tBV(e->k[0]), tBV(e->k[1])); break;
    case Op::ITE:
      r = Z3_mk_ite(c, tBool(e->k[0]), tBool(e->k[1]), tBool(e->k[2]));
      break;
    case Op::FEQ: r = Z3_mk_fpa_eq(c, tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FLT: r = Z3_mk_fpa_lt(c, tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FLE: r = Z3_mk_fpa_leq(c, tFP(e->k[0]), tFP(e->k[1])); break;
    case Op::FISNAN: r = Z3_mk_fpa_is_nan(c, tFP(e->k[0])); break;
    default:
      r = Z3_mk_eq(c, tBV(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
      break;
  }
  chk(r, e);
  e->z3bool = keep(r);
  return r;
}
// the operations tBool translates itself
static bool boolOp(Op o) {
  switch (o) {
    case Op::AND: case Op::OR: case Op::XOR: case Op::EQ: case Op::ULT: case Op::ULE: case Op::SLT:
    case Op::SLE: case Op::ITE: case Op::FEQ: case Op::FLT: case Op::FLE: case Op::FISNAN: return true;
    default: return false;
  }
}
static Z3_ast bvConst(const APInt& v) {
  llvm::SmallString<80> s;
  v.toStringUnsigned(s);
  return Z3_mk_numeral(ctx(), s.c_str(), Z3_mk_bv_sort(ctx(), v.getBitWidth()));
}
static Z3_ast tBV(E e) {
  if (e->z3bv) return (Z3_ast)e->z3bv;
  Z3_context c = ctx();
  Z3_ast r = nullptr;
  auto K = [&](int i) { return tBV(e->k[i]); };
  if (fpValued(e)) {
    r = Z3_mk_fpa_to_ieee_bv(c, tFP(e));
  } else if (e->w == 1 && boolOp(e->op)) {
    r = Z3_mk_ite(c, tBool(e), bvConst(APInt(1, 1)), bvConst(APInt(1, 0)));
  } else
    switch (e->op) {
      case Op::CONST: r = bvConst(e->c); break;
      case Op::VAR:
        r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->aux)).c_str()),
                        Z3_mk_bv_sort(c, e->w));
        break;
      case Op::ADD: r = Z3_mk_bvadd(c, K(0), K(1)); break;
      case Op::SUB: r = Z3_mk_bvsub(c, K(0), K(1)); break;
      case Op::MUL: r = Z3_mk_bvmul(c, K(0), K(1)); break;
      case Op::UDIV: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
      case Op::SDIV: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
      case Op::UREM: r = Z3_mk_bvurem(c, K(0), K(1)); break;
      case Op::SREM: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
      case Op::AND: r = Z3_mk_bvand(c, K(0), K(1)); break;
      case Op::OR: r = Z3_mk_bvor(c, K(0), K(1)); break;
      case Op::XOR: r = Z3_mk_bvxor(c, K(0), K(1)); break;
      case Op::SHL: r = Z3_mk_bvshl(c, K(0), K(1)); break;
      case Op::LSHR: r = Z3_mk_bvlshr(c, K(0), K(1)); break;
      case Op::ASHR: r = Z3_mk_bvashr(c, K(0), K(1)); break;
      case Op::ITE: r = Z3_mk_ite(c, tBool(e->k[0]), K(1), K(2)); break;
      case Op::CONCAT: r = Z3_mk_concat(c, K(0), K(1)); break;
      case Op::EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, K(0)); break;
      case Op::ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, K(0)); break;
      case Op::SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, K(0)); break;
      case Op::FP2SI:
      case Op::FP2UI: {
        // in range: round toward zero; out of range / NaN: the x86 "indefinite" value
        unsigned cw = e->op == Op::FP2SI ? (e->w <= 32 ? 32 : 64) : 64;
        Z3_ast f = tFP(e->k[0]);
        Z3_sort s = fpSort(e->k[0]->w);
        Z3_ast rz = Z3_mk_fpa_round_toward_zero(c);
        Z3_ast t = Z3_mk_fpa_round_to_integral(c, rz, f);
        Z3_ast lo, hi, conv, bad;
        if (e->op == Op::FP2SI) {
          lo = Z3_mk_fpa_numeral_double(c, cw == 64 ? -9223372036854775808.0 : -2147483648.0, s);
          hi = Z3_mk_fpa_numeral_double(c, cw == 64 ? 9223372036854775808.0 : 2147483648.0, s);
          conv = Z3_mk_fpa_to_sbv(c, rz, f, cw);
          bad = bvConst(APInt::getSignedMinValue(cw));
        } else {
          lo = Z3_mk_fpa_numeral_double(c, 0.0, s);
          hi = Z3_mk_fpa_numeral_double(c, 18446744073709551616.0, s);
          conv = Z3_mk_fpa_to_ubv(c, rz, f, cw);
          bad = bvConst(APInt(cw, 0));
        }
        Z3_ast in[2] = {Z3_mk_fpa_leq(c, lo, t), Z3_mk_fpa_lt(c, t, hi)};
        r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), conv, bad);
        if (cw != e->w) r = Z3_mk_extract(c, e->w - 1, 0, r);
        break;
      }
      default: fprintf(stderr, "tBV: op %d\n", (int)e->op); abort();
    }
  chk(r, e);
  e->z3bv = keep(r);
  return r;
}

// ---------------------------------------------------------------- external portfolio
#include "lia.inc"
static std::string runPortfolio(const std::string& smt2Body, const std::vector<uint32_t>& vars,
                                bool fp, Model& m, const std::string& liaBody) {
  ++g_sstats.portfolio;
  static int ctr = 0;
  std::string base = g_tmpDir + "/pf_" + std::to_string(getpid()) + "_" + std::to_string(ctr++);
  std::ostringstream os;
  std::string body = smt2Body;
  size_t p = body.find("(check-sat)");
  if (p != std::string::npos) body = body.substr(0, p);
  os << "(set-option :produce-models true)\n(set-logic " << (fp ? "QF_BVFP" : "QF_BV") << ")\n"
     << body << "(check-sat)\n(get-value (";
  for (auto v : vars) os << "v" << v << " ";
  os << "))\n";
  {
    std::ofstream f(base + ".smt2");
    f << os.str();
  }
  std::vector<std::vector<std::string>> cmds;
  std::string file = base + ".smt2", lfile = base + ".lia.smt2";
  if (!liaBody.empty()) {
    std::string lb = liaBody;
    size_t lp = lb.find("(check-sat)");
    if (lp != std::string::npos) lb = lb.substr(0, lp);
    std::ofstream f(lfile);
    f << "(set-option :produce-models true)\n(set-logic QF_LIA)\n" << lb << "(check-sat)\n(get-value (";
    for (auto v : vars) f << "v" << v << " ";
    f << "))\n";
    cmds.push_back({"z3-new", lfile});
    cmds.push_back({"cvc5", lfile});
  }
  if (!fp) {
    cmds.push_back({"z3-new", file});
    cmds.push_back({"cvc5", "--solve-bv-as-int=sum", file});
    cmds.push_back({"cvc5", file});
    cmds.push_back({"z3-new", "sat.euf=false", "tactic.default_tactic=(then simplify solve-eqs simplify bit-blast sat)", file});
    cmds.push_back({"cvc5", "--solve-bv-as-int=iand", file});
  } else {
    cmds.push_back({"cvc5", "--fp-exp", file});
    cmds.push_back({"z3-new", file});
  }
  std::vector<pid_t> pids;
  for (size_t i = 0; i < cmds.size(); ++i) {
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      std::string out = base + "." + std::to_string(i) + ".out";
      if (!freopen(out.c_str(), "w", stdout)) _exit(1);
      if (!freopen("/dev/null", "w", stderr)) _exit(1);
      std::vector<char*> av;
      for (auto& s : cmds[i]) av.push_back((char*)s.c_str());
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    pids.push_back(pid);
  }
  auto t0 = std::chrono::steady_clock::now();
  std::string answer = "unknown";
  std::set<int> alive;
  for (size_t i = 0; i < pids.size(); ++i) alive.insert(i);
  while (!alive.empty() && answer == "unknown") {
    for (auto it = alive.begin(); it != alive.end();) {
      int st;
      if (waitpid(pids[*it], &st, WNOHANG) > 0) {
        std::ifstream f(base + "." + std::to_string(*it) + ".out");
        std::stringstream ss;
        ss << f.rdbuf();
        std::string t = ss.str();
        bool err = t.find("(error") != std::string::npos;
        if (t.rfind("unsat", 0) == 0) {
          // get-value after unsat legitimately reports an error; any error before it does not
          answer = "unsat";
        } else if (t.rfind("sat", 0) == 0 && !err) {
          answer = "sat";
          // parse ((v1 #x..) (v2 #b..) ...)
          for (auto v : vars) {
            std::string k = "(v" + std::to_string(v) + " ";
            size_t q = t.find(k);
            if (q == std::string::npos) { answer = "unknown"; break; }
            q += k.size();
            size_t e2 = t.find(')', q);
            std::string s = t.substr(q, e2 - q);
            uint64_t x = 0;
            if (s.rfind("#x", 0) == 0)
              x = strtoull(s.c_str() + 2, nullptr, 16);
            else if (s.rfind("#b", 0) == 0)
              x = strtoull(s.c_str() + 2, nullptr, 2);
            else if (s.rfind("(_ bv", 0) == 0)
              x = strtoull(s.c_str() + 5, nullptr, 10);
            else if (s.rfind("(- ", 0) == 0)
              x = 0 - strtoull(s.c_str() + 3, nullptr, 10);
            else
              x = strtoull(s.c_str(), nullptr, 10);
            if (g_vars[v].w < 64) x &= (1ull << g_vars[v].w) - 1;
            if (v >= m.size()) m.resize(v + 1, 0);
            m[v] = x;
          }
        }
        it = alive.erase(it);
        if (answer != "unknown") break;
      } else
        ++it;
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > g_portfolioSec) break;
    usleep(5000);
  }
  for (int i : alive) {
    kill(-pids[i], SIGKILL);
    kill(pids[i], SIGKILL);
    int st;
    waitpid(pids[i], &st, 0);
  }
  if (!getenv("SYM_KEEP")) {
    unlink(file.c_str());
    unlink(lfile.c_str());
    for (size_t i = 0; i < cmds.size(); ++i) unlink((base + "." + std::to_string(i) + ".out").c_str());
  }
  return answer;
}

struct CacheEnt {
  Res r;
  std::vector<std::pair<uint32_t, uint64_t>> m;
};
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;
static std::vector<ModelP> g_recent;  // recent models, tried before asking the solver

static z3::solver& bvSolver() {
  static z3::solver* s = nullptr;
  if (!s) {
    z3::tactic t = z3::tactic(ctx(), "simplify") & z3::tactic(ctx(), "propagate-values") &
                   z3::tactic(ctx(), "solve-eqs") & z3::tactic(ctx(), "simplify") &
                   z3::tactic(ctx(), "bit-blast") & z3::tactic(ctx(), "sat");
    s = new z3::solver(t.mk_solver());
  }
  return *s;
}

Res checkSat(const std::vector<E>& cs, E q, const ModelP& base, ModelP& out) {
  ++g_sstats.queries;
  if (q->isConst()) {
    if (!q->c.getBoolValue()) return Res::UNSAT;
    if (base) {
      out = base;
      return Res::SAT;
    }
  }
  // independence slicing: constraints transitively sharing variables with q
  std::vector<char> in(cs.size(), 0);
  std::vector<char> vin(g_vars.size(), 0);
  for (auto v : q->vars) vin[v] = 1;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); ++i) {
      if (in[i]) continue;
      bool hit = !base;
      for (auto v : cs[i]->vars)
        if (vin[v]) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1;
      for (auto v : cs[i]->vars)
        if (!vin[v]) { vin[v] = 1; ch = true; }
    }
  }
  std::vector<E> sl;
  for (size_t i = 0; i < cs.size(); ++i)
    if (in[i]) sl.push_back(cs[i]);
  sl.push_back(q);
  std::vector<uint32_t> key;
  bool fp = false;
  for (E e : sl) {
    key.push_back(e->id);
    fp |= e->hasFP;
  }
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  std::vector<uint32_t> vars;
  for (uint32_t v = 0; v < vin.size(); ++v)
    if (vin[v]) vars.push_back(v);
  auto mkOut = [&](const std::vector<std::pair<uint32_t, uint64_t>>& vals) {
    auto m = std::make_shared<Model>(base ? *base : Model());
    if (m->size() < g_vars.size()) m->resize(g_vars.size(), 0);
    for (auto& kv : vals) (*m)[kv.first] = kv.second;
    out = m;
  };
  auto c = g_cache.find(key);
  if (c != g_cache.end()) {
    ++g_sstats.byCache;
    if (c->second.r == Res::SAT) mkOut(c->second.m);
    return c->second.r;
  }
  auto record = [&](const Model& m) {
    CacheEnt ce;
    ce.r = Res::SAT;
    for (auto v : vars) ce.m.push_back({v, v < m.size() ? m[v] : 0});
    mkOut(ce.m);
    g_cache[key] = ce;
  };
  // recent models
  for (int i = (int)g_recent.size() - 1, n = 0; i >= 0 && n < 8; --i, ++n) {
    bumpEval();
    bool ok = true;
    for (auto it = sl.rbegin(); it != sl.rend(); ++it)
      if (!evalBool(*it, *g_recent[i])) { ok = false; break; }
    if (ok) {
      ++g_sstats.byModel;
      record(*g_recent[i]);
      bumpEval();
      return Res::SAT;
    }
  }
  bumpEval();
  ++g_sstats.discharged;
  auto t0 = std::chrono::steady_clock::now();
  Res res = Res::UNKNOWN;
  Model m;
  lia::Tr tr;
  std::vector<Z3_ast> lcs;
  bool haveLia = !fp && liaBuild(sl, tr, lcs);
  if (haveLia && !tr.partial)
    for (auto v : vars)
      if (!tr.vars.count(v)) haveLia = false;
  std::string liaTxt;
  if (haveLia) try {
    z3::solver ls(ctx(), z3::solver::simple());
    for (auto a : lcs) ls.add(z3::expr(ctx(), a));
    if (tr.hard) {
      z3::params p(ctx());
      p.set("timeout", tr.partial ? std::min(g_timeoutMs, 3000u) : g_timeoutMs);
      ls.set(p);
      z3::check_result r = ls.check();
      if (r == z3::unsat) res = Res::UNSAT;
      else if (r == z3::sat && !tr.partial) {
        z3::model zm = ls.get_model();
        m.assign(g_vars.size(), 0);
        for (auto v : vars) {
          z3::expr x = zm.eval(z3::expr(ctx(), tr.vars[v]), true);
          int64_t u = 0;
          Z3_get_numeral_int64(ctx(), x, &u);
          uint64_t b = (uint64_t)u;
          if (g_vars[v].w < 64) b &= (1ull << g_vars[v].w) - 1;
          m[v] = b;
        }
        res = Res::SAT;
      }
      ++g_sstats.lia;
    }
    if (res == Res::UNKNOWN && !tr.partial) liaTxt = ls.to_smt2();
  } catch (z3::exception& ex) {
    fprintf(stderr, "z3 exception: %s\n", ex.msg());
  }
  if (res == Res::UNKNOWN) try {
    z3::solver s = fp ? z3::tactic(ctx(), "qffpbv").mk_solver() : bvSolver();
    s.reset();
    z3::params p(ctx());
    p.set("timeout", g_timeoutMs);
    s.set(p);
    for (E e : sl) s.add(z3::expr(ctx(), tBool(e)));
    z3::check_result r = s.check();
    if (r == z3::unsat)
      res = Res::UNSAT;
    else if (r == z3::sat) {
      z3::model zm = s.get_model();
      m.assign(g_vars.size(), 0);
      for (auto v : vars) {
        z3::expr x = zm.eval(z3::expr(ctx(), tBV(g_vars[v].e)), true);
        uint64_t u = 0;
        Z3_get_numeral_uint64(ctx(), x, &u);
        m[v] = u;
      }
      res = Res::SAT;
    } else {
      std::string txt = s.to_smt2();
      std::string a = runPortfolio(txt, vars, fp, m, liaTxt);
      if (a == "sat") res = Res::SAT;
      if (a == "unsat") res = Res::UNSAT;
    }
    s.reset();
  } catch (z3::exception& ex) {
    fprintf(stderr, "z3 exception: %s\n", ex.msg());
    res = Res::UNKNOWN;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sstats.time += dt;
  if (getenv("SYM_DUMP") && dt > 0.3 && haveLia) {
    std::ofstream f("/tmp/slow.smt2");
    for (auto a : lcs) f << Z3_ast_to_string(ctx(), Z3_simplify(ctx(), a)) << "\n";
  }
  if (getenv("SYM_SLOWQ") && dt > (atof(getenv("SYM_SLOWQ")))) {
    fprintf(stderr, "slow query %.1fs res=%d q=%s\n", dt, (int)res, exprStr(q, getenv("SYM_DEPTH") ? atoi(getenv("SYM_DEPTH")) : 5).c_str());
  }
  g_sstats.maxTime = std::max(g_sstats.maxTime, dt);
  if (res == Res::SAT) {
    // trust but verify: the model must satisfy the slice under our own evaluator
    bumpEval();
    m.resize(g_vars.size(), 0);
    bool ok = true;
    for (E e : sl)
      if (!evalBool(e, m)) { ok = false; break; }
    bumpEval();
    if (!ok && !fp) {
      fprintf(stderr, "internal: solver model does not satisfy the query (lia=%d)\n", (int)(tr.hard && haveLia));
      if (getenv("SYM_SLOWQ"))
        for (E e : sl)
          if (!evalBool(e, m)) fprintf(stderr, "  violated: %s\n", exprStr(e, 12).c_str());
      for (auto v : vars)
        if (getenv("SYM_SLOWQ")) fprintf(stderr, "  v%u %s = %llx\n", v, g_vars[v].name.c_str(), (unsigned long long)m[v]);

      res = Res::UNKNOWN;
    } else if (!ok) {
      // a float model may differ from the machine on NaN payloads only
      fprintf(stderr, "note: float model differs from the evaluator (NaN payload?)\n");
      res = Res::UNKNOWN;
    }
  }
  if (res == Res::SAT) {
    ++g_sstats.sat;
    record(m);
    g_recent.push_back(out);
    if (g_recent.size() > 64) g_recent.erase(g_recent.begin(), g_recent.begin() + 32);
  } else if (res == Res::UNSAT) {
    ++g_sstats.unsat;
    g_cache[key] = {Res::UNSAT, {}};
  } else
    ++g_sstats.unknown;
  return res;
}
