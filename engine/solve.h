#pragma once
#include "term.h"
#include <map>
#include <set>
struct Model { std::map<uint32_t, u128> v; }; // var index -> value
enum Verdict { PROVED, REFUTED, UNKNOWN };
struct ProveResult { Verdict v = PROVED; const char* backend = ""; Model m; double secs = 0; std::string why; };
struct SolveStats { size_t bySimp = 0, byCache = 0, byZ3 = 0, byZ3FP = 0, byRing = 0, byInt = 0, byCvc5 = 0, byLinBits = 0, bySat = 0, bySplit = 0, refuted = 0, unknown = 0; double z3secs = 0; };
extern SolveStats gStats;
extern unsigned gTimeoutMs;
extern bool gUseCache;
// Prove that assumptions imply goal.
ProveResult prove(const std::vector<T>& assume, T goal, unsigned timeoutMs = 0, bool randomFirst = true);
// Is the conjunction satisfiable? returns REFUTED (unsat) / PROVED (sat, model) / UNKNOWN
ProveResult satisfiable(const std::vector<T>& conj, unsigned timeoutMs);
u128 evalUnder(T t, const Model& m, std::unordered_map<T, u128>& memo);
void collectVars(T t, std::set<uint32_t>& vs, std::unordered_map<T, bool>& seen);
std::string toSmt2(const std::vector<T>& assume, T goal);
extern bool gNoAutoSplit;
