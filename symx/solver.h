#pragma once
#include "expr.h"
#include <memory>
struct LitC { Expr* atom; bool neg; };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, bvQueries = 0; double time = 0, maxTime = 0; };
extern SolverStats g_sstats;
void solverReset();  // new context (also after fork())
// checks path /\ extra ; on SAT fills model (extending `base` for variables not mentioned)
enum SatRes { SR_UNSAT, SR_SAT, SR_UNKNOWN };
SatRes solverCheck(const std::vector<LitC>& path, const std::vector<LitC>& extra, Model& m);
// path /\ (or of negated lits)
SatRes solverCheckAnyFalse(const std::vector<LitC>& path, const std::vector<LitC>& lits, Model& m);
extern unsigned g_solverTimeoutMs;
extern bool (*g_expired)();
extern bool g_forceBv;  // decide every query in bit-vector arithmetic
extern std::string g_dumpDir; extern int g_dumpMax;
