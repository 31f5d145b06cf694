#pragma once
#include "expr.h"
#include <map>
enum Res { SAT, UNSAT, UNKNOWN };
struct RealModel { std::map<uint32_t, std::string> q; std::map<uint32_t, double> d; };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0, maxq = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// Checks satisfiability of the conjunction. model (if given) receives values of the BV vars occurring.
Res solverCheck(const std::vector<E>& cs, std::vector<uint64_t>* model, RealModel* rm);
// Normalises a real expression as a sum of monomials; returns true when it is the constant zero.
bool realIsZero(E e);
const std::string& rfnName(uint64_t i);
