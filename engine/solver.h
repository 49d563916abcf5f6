// Z3-backed satisfiability with slicing, caching and model reuse.
#pragma once
#include "expr.h"
#include <chrono>
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0; double z3time = 0; double maxq = 0; };
struct SolverUnknown { std::string why; };
struct Solver {
  Z3_context ctx = nullptr; Z3_solver s = nullptr;
  SolverStats st;
  std::unordered_map<Expr*, Z3_ast> guards; unsigned gen = 0;
  std::unordered_map<u64, std::vector<std::pair<std::vector<uint32_t>, std::pair<bool, std::shared_ptr<Model>>>>> cache;
  std::vector<std::shared_ptr<Model>> recent; size_t recentPos = 0;
  unsigned rlimit = 400000000;
  std::vector<Expr*> translated;
  std::string dumpDir; u64 dumpEvery = 0; u64 dumped = 0;
  size_t cacheEntries = 0;
  double deadline = 0;
  void init();
  void resetCtx();
  Z3_ast bv(Expr *e);
  Z3_ast boolean(Expr *e);
  // constraints conj: all must hold. Returns true if sat (model filled for variables in it)
  bool check(std::vector<Expr*> &cs, std::shared_ptr<Model> base, std::shared_ptr<Model> &out);
};
