#pragma once
#include "expr.h"
#include <functional>

enum class Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  uint64_t queries = 0;      // satisfiability questions asked by the executor
  uint64_t byModel = 0;      // answered by re-evaluating an earlier model
  uint64_t byCache = 0;      // answered from the query cache
  uint64_t discharged = 0;   // solver runs
  uint64_t sat = 0, unsat = 0, unknown = 0;
  uint64_t portfolio = 0;    // runs that needed the external portfolio
  uint64_t lia = 0;          // runs decided in linear integer arithmetic
  double time = 0;
  double maxTime = 0;
};
extern SolverStats g_sstats;
extern unsigned g_timeoutMs;       // in-process budget per query
extern unsigned g_portfolioSec;    // external portfolio budget per query
extern std::string g_tmpDir;

// Is cs /\ q satisfiable?  base satisfies cs (if given).  On SAT, out is a model of cs /\ q.
Res checkSat(const std::vector<E>& cs, E q, const ModelP& base, ModelP& out);
