#pragma once
#include "core.h"
struct SolverStats { u64 queries = 0, cacheHits = 0, presolved = 0, unary = 0, assertQ = 0; double z3s = 0; u64 sat = 0, unsat = 0; };
struct Solver {
  Z3_context ctx; Z3_solver s; SolverStats st; unsigned timeoutMs = 20000;
  std::vector<Z3_ast> zv;
  struct KeyHash { size_t operator()(const std::vector<u64>& v) const { u64 h = 14695981039346656037ULL; for (u64 x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 31; } return h; } };
  struct Res { bool sat; std::vector<std::pair<i32, u64>> model; };
  std::unordered_map<std::vector<u64>, Res, KeyHash> cache;
  std::unordered_map<std::vector<u64>, bool, KeyHash> unaryCache;
  Solver();
  Z3_ast tr(Expr* e);
  Z3_ast inSet(i32 var, const Bits& d);
  // is  dom /\ cs  satisfiable?  on success fills model (only for variables that occur)
  bool check(const std::vector<Bits>& dom, const std::vector<Expr*>& cs, std::vector<u64>& model);
  bool confirmUnaryUnsat(i32 var, const Bits& dom, Expr* cond, bool val);
};
