#pragma once
#include "expr.h"
#include <functional>

enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

struct SolverStats {
   u64    queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0, cross = 0, crossBad = 0, tables = 0;
   double time = 0, extTime = 0, maxq = 0;
};
extern SolverStats g_sst;
extern double      g_ext_timeout;     // seconds for the external portfolio
extern double      g_deadline;
extern long        g_conf_budget;
extern int         g_cross_every;     // cross-check every n-th UNSAT obligation with an SMT solver (0: never)

// conjunction of width-1 expressions; on SAT fills `m` for the variables occurring in them
SatRes solveConj(const std::vector<X>& conj, Model& m);
// run the external SMT portfolio on the conjunction
SatRes solveExternal(const std::vector<X>& conj, Model& m, double timeout, bool lia = false);
