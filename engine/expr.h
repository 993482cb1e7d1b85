// Hash-consed bit-vector / IEEE-float expression DAG.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

enum class Op : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  // IEEE operations; operands and results are bit patterns (32/64 bits)
  FADD, FSUB, FMUL, FDIV, FREM, FMA, FSQRT, FRTI,  // FRTI: aux = rounding mode
  FEQ, FLT, FLE, FISNAN,
  FP2SI, FP2UI, SI2FP, UI2FP, FP2FP
};
enum { RM_NEAREST = 0, RM_UP = 1, RM_DOWN = 2, RM_ZERO = 3, RM_AWAY = 4 };

struct Expr {
  Op op;
  uint16_t w;
  uint32_t aux = 0;  // EXTRACT: low bit; VAR: id; FRTI: rounding mode
  uint32_t id = 0;
  const Expr* k[3] = {nullptr, nullptr, nullptr};
  llvm::APInt c{1, 0};
  std::vector<uint32_t> vars;  // sorted ids of the variables below
  bool hasFP = false;
  mutable uint64_t evEpoch = 0;  // evaluation cache
  mutable llvm::APInt ev{1, 0};
  mutable void* z3bv = nullptr;  // translation caches (owned by the solver)
  mutable void* z3bool = nullptr;
  bool isConst() const { return op == Op::CONST; }
  int nk() const { return k[2] ? 3 : k[1] ? 2 : k[0] ? 1 : 0; }
};
using E = const Expr*;

struct VarInfo {
  std::string name;
  unsigned w;
  E e;
};
extern std::vector<VarInfo> g_vars;

using Model = std::vector<uint64_t>;  // value per variable id (missing => 0)
using ModelP = std::shared_ptr<const Model>;

E mkConst(const llvm::APInt& v);
E mkConst(unsigned w, uint64_t v);
E mkVar(const std::string& name, unsigned w);
E mk(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkNot(E a);
E mkFpUn(Op op, E a, unsigned w, unsigned aux = 0);
E mkFma(E a, E b, E c);
inline E mkBool(bool b) { return mkConst(1, b); }
inline E mkEq(E a, E b) { return mk(Op::EQ, a, b); }
inline E mkNe(E a, E b) { return mkNot(mk(Op::EQ, a, b)); }
inline E mkAnd(E a, E b) { return mk(Op::AND, a, b); }
inline E mkOr(E a, E b) { return mk(Op::OR, a, b); }
// value of tab[idx - base] by a balanced comparison tree; idx is assumed in range
E mkTable(E idx, const std::vector<E>& tab, size_t lo, size_t hi);

void bumpEval();  // start a new evaluation epoch (call when the model changes)
llvm::APInt evalE(E e, const Model& m);
inline bool evalBool(E e, const Model& m) { return evalE(e, m).getBoolValue(); }
llvm::APInt foldOp(Op op, unsigned w, unsigned aux, const llvm::APInt* a, int n);
size_t exprCount();
std::string exprStr(E e, int depth = 6);
