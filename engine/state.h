#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <unordered_map>

struct Val {
  E e = nullptr;    // symbolic value, or a constant wider than 64 bits
  uint64_t v = 0;   // concrete value when !e && !agg
  uint32_t w = 0;
  std::shared_ptr<std::vector<Val>> agg;
  bool conc() const { return !e && !agg; }
};
inline Val cv(unsigned w, uint64_t v) {
  Val r;
  r.w = w;
  r.v = w >= 64 ? v : (v & ((1ULL << w) - 1));
  return r;
}
inline Val fromE(E e) {
  Val r;
  r.w = e->w;
  if (e->isConst() && e->w <= 64)
    r.v = e->c.getZExtValue();
  else
    r.e = e;
  return r;
}
inline E toE(const Val& v) {
  assert(!v.agg);
  return v.e ? v.e : mkConst(v.w, v.v);
}

struct SymB {
  E e = nullptr;
  uint32_t idx = 0;  // byte of e (little endian)
};
struct Obj {
  uint64_t base = 0, size = 0;
  bool ro = false;
  uint8_t kind = 0;  // 0 global 1 stack 2 heap
  std::vector<uint8_t> b;
  std::vector<SymB> s;  // empty: all concrete
};
using ObjP = std::shared_ptr<Obj>;

struct Opnd {
  int reg = -1;
  Val c;
};
struct KInst {
  llvm::Instruction* I;
  int dst = -1;
  std::vector<Opnd> ops;
  unsigned w = 0;          // result width if scalar
  uint64_t size = 0;       // load/store/alloca size in bytes
  std::vector<std::pair<int64_t, int>> gep;  // (stride, operand index)
  int64_t gepConst = 0;
};
struct KBlock;
struct KFunc {
  llvm::Function* F;
  int nregs = 0;
  std::vector<KInst> ins;
  std::unordered_map<const llvm::BasicBlock*, int> blockStart;
  uint64_t execs = 0;
  bool merge = false;
};

struct Frame {
  KFunc* f = nullptr;
  int pc = 0;
  const llvm::BasicBlock* prev = nullptr;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
  int retPc = -1;  // unused; the caller's own pc points at the call
};
struct Thread {
  std::vector<Frame> st;
  int parent = 0;
  int status = 0;  // 0 runnable 1 finished 2 joining 3 waiting for a lock
  std::vector<std::pair<uint64_t, uint64_t>> caught;  // (object, typeinfo)
  uint64_t excObj = 0, excTi = 0, waitAddr = 0;
  uint64_t lastAddr = 0;
  int spin = 0;
};
struct InputRec {
  uint32_t var;
};
struct State {
  std::vector<Thread> th;
  int cur = 0;
  std::map<uint64_t, ObjP> heap;                    // stack and heap objects
  std::unordered_map<uint32_t, ObjP> gmod;          // modified globals
  std::vector<E> cs;
  ModelP model;
  uint64_t nextAddr = 0x100000000000ULL;
  uint64_t nextStack = 0x200000000000ULL;
  std::vector<std::pair<uint64_t, uint64_t>> shared;  // regions whose accesses are scheduling points
  std::vector<InputRec> inputs;
  std::map<std::string, int> nameCnt;
  std::vector<Val> obs;
  std::set<std::string> covers;
  uint64_t steps = 0;
  int preempt = 0;
  unsigned forks = 0;
  bool initPhase = false;
  std::map<uint64_t, int> locks;  // -1 exclusive, >0 readers
};
using StateP = std::unique_ptr<State>;
