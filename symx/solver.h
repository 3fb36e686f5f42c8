#pragma once
#include "expr.h"
#include <vector>
enum SatResult { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; double maxTime = 0; };
extern SolverStats solverStats;
// Is (conjunction of pc) && q satisfiable?  base: a model of pc (or null).  On SAT, *out gets a model.
SatResult solverCheck(const std::vector<E> &pc, E q, const ModelP &base, ModelP *out);
void solverInit(unsigned timeout_ms, const char *dumpUnknown);
