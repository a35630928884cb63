#pragma once
#include "term.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double ms = 0, maxMs = 0; };
struct Solver {
  Z3_context ctx; Z3_solver simple, plain, hard;
  SolverStats st;
  unsigned timeoutMs = 60000; bool paramsSet[3] = {false, false, false}; void setTimeout(unsigned ms) { timeoutMs = ms; paramsSet[2] = false; } std::vector<T> incStack; int incUses = 0;
  std::unordered_map<T, Z3_ast> bv, bl;
  std::unordered_map<T, std::vector<u32>> varsCache;
  Solver();
  Z3_ast toBV(T t); Z3_ast toBool(T t);
  const std::vector<u32> &varsOf(T t);
  // satisfiability of the conjunction; on SAT fills (*model)[var] for the variables involved
  SatRes check(const std::vector<T> &cs, std::vector<u64> *model);
  // prove a == b treating the nodes in 'leaf' as unconstrained within their ranges
  SatRes checkCutEq(T a, T b, const std::unordered_set<T> &leaf);
  SatRes proveLemma(const NarrowLemma &l);
private:
  Z3_ast rangeOfVar(T v, Z3_ast x);
  Z3_ast build(T t, std::unordered_map<T, Z3_ast> &m, const std::unordered_set<T> *leaf, std::vector<std::pair<T, Z3_ast>> *leaves);
  Z3_ast node(T t, Z3_ast a, Z3_ast b, Z3_ast c, bool ba, bool bb, bool bc, bool &isBool);
  SatRes runInc(const std::vector<T> &cs, T last, const std::vector<u32> &vars, std::vector<u64> *model);
  SatRes run(const std::vector<Z3_ast> &as, const std::vector<u32> *vars, std::vector<u64> *model);
  struct ZV { Z3_ast a; bool isBool; };
  std::unordered_map<T, ZV> memo;
  ZV conv(T t, std::unordered_map<T, ZV> &m, const std::unordered_set<T> *leaf, std::vector<std::pair<T, Z3_ast>> *leaves);
  Z3_ast asBV(ZV v); Z3_ast asBool(ZV v);
  std::unordered_map<std::string, std::pair<SatRes, std::vector<std::pair<u32, u64>>>> cache;
};
