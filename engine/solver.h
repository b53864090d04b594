#pragma once
#include "expr.h"
enum SatRes { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, byteDecided = 0, finite = 0; double seconds = 0; double maxSeconds = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
extern std::string g_dumpDir;
// Satisfiability of the conjunction of cs. When SAT fills (id,value) for every symbol in cs.
SatRes checkSat(std::vector<Expr *> const &cs, std::vector<std::pair<int, u64>> *model);
void solverInit();
