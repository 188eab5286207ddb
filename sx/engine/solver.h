// sx: Z3-backed decision procedure with independence slicing and caching.
#pragma once
#include "expr.h"
#include <z3.h>
#include <z3++.h>
#include <memory>
#include <chrono>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
typedef std::shared_ptr<const std::vector<u64>> Model;

struct Solver {
  std::unique_ptr<z3::context> c; std::unique_ptr<z3::solver> s;
  std::vector<z3::expr*> tr;          // translation cache by expr id
  std::vector<z3::expr*> proxy;       // assumption literal by expr id
  size_t asserted = 0; size_t resetAt = getenv("SX_RESET") ? atoi(getenv("SX_RESET")) : 2000;
  // stats
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double time = 0; double maxq = 0;
  unsigned timeout_ms = 60000;
  FILE* dump = nullptr; u64 dumpEvery = 0, dumped = 0; size_t dumpMax = 400;
  struct CE { SatRes r; std::vector<std::pair<u32, u64>> m; };
  struct KH { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ULL; for (u32 x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 32; } return h; } };
  std::unordered_map<std::vector<u32>, CE, KH> cache;
  void reset();
  z3::expr& trans(Expr* e);
  // Is (pc ∧ extra) satisfiable?  On SAT fills m (starting from base for variables outside the slice).
  SatRes check(const std::vector<Expr*>& pc, Expr* extra, const Model& base, Model& m, u32 nvars);
};
std::string smtOf(const std::vector<Expr*>& cs);
