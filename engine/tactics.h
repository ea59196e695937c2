#pragma once
#include "term.h"
#include <map>
#include <set>
T rebuildNode(T t, const std::vector<T>& k);
struct Subst { std::unordered_map<T, T> memo; T go(T root); };
bool linearBits(T goal);
bool xorNormal(T goal);
bool minMaxEqual(T goal);
bool xorFormAgrees(T t, const std::function<u128(T)>& ev);
bool linearFormAgrees(T t, const std::function<u128(T)>& ev, bool& has);
// kind 0: enumerate the low log2(k) bits; 1: position of the leading one; 2: position of the trailing one
struct SplitHint { int kind; uint64_t k; };
extern std::map<uint32_t, SplitHint> gSplits;
void splitCases(T v, const SplitHint& h, bool hiZero, std::vector<T>& out);
