// Hash-consed bit-vector terms with eager simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include <algorithm>
#include <cmath>

typedef uint32_t T;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_LIN, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM,
  O_AND, O_OR, O_XOR, O_NOT, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_SEXT, O_ITE, O_EQ, O_ULT, O_SLT,
  O_POPCNT, O_CTLZ, O_CTTZ,
  // floating point (width of result in w); uninterpreted unless asked otherwise
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FMA,
  O_FPEXT, O_FPTRUNC, O_F2SI, O_F2UI, O_SI2F, O_UI2F, O_FRINT, O_FREM,
  O_UF,  // uninterpreted function; c = function id, kids = args
};
extern const char* kOpName[];

struct Node {
  Op op; uint8_t flag; uint16_t w; uint32_t nk, koff, coff; // coff: LIN coefs
  u128 c; // CONST value, VAR index, LIN constant, EXTRACT low bit, UF id, FRINT mode
};

struct VarInfo { std::string name; uint8_t alignBits; int32_t obj; bool input; };

struct Terms {
  std::vector<Node> n;
  std::vector<T> kids;
  std::vector<u128> coefs;
  std::vector<uint32_t> table; size_t mask = 0;
  std::vector<VarInfo> vars;
  std::vector<T> varTerm;
  std::vector<std::string> ufNames;
  std::unordered_map<uint64_t, T> exMemo;

  Terms();
  static u128 msk(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
  static i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }
  unsigned W(T t) const { return n[t].w; }
  Op op(T t) const { return n[t].op; }
  T kid(T t, unsigned i) const { return kids[n[t].koff + i]; }
  bool isC(T t) const { return n[t].op == O_CONST; }
  u128 C(T t) const { return n[t].c; }
  bool isC(T t, u128 v) const { return n[t].op == O_CONST && n[t].c == v; }
  bool isOnes(T t) const { return n[t].op == O_CONST && n[t].c == msk(n[t].w); }

  T raw(Op op, unsigned w, const T* k, unsigned nk, u128 c, const u128* cf = nullptr);
  T k(u128 v, unsigned w) { return raw(O_CONST, w, nullptr, 0, v & msk(w)); }
  T var(const std::string& name, unsigned w, unsigned alignBits = 0, int obj = -1, bool input = false);
  T tru() { return k(1, 1); }
  T fls() { return k(0, 1); }
  T add(T a, T b);
  T sub(T a, T b);
  T neg(T a);
  T mulc(T a, u128 c);
  T mul(T a, T b);
  T udiv(T a, T b); T urem(T a, T b); T sdiv(T a, T b); T srem(T a, T b);
  T And(T a, T b); T Or(T a, T b); T Xor(T a, T b); T Not(T a);
  T shl(T a, T b); T lshr(T a, T b); T ashr(T a, T b);
  T concat(const std::vector<T>& lowToHigh);
  T concat2(T hi, T lo) { return concat({lo, hi}); }
  T extract(T a, unsigned lo, unsigned w);
  T zext(T a, unsigned w) { return w == W(a) ? a : concat2(k(0, w - W(a)), a); }
  T sext(T a, unsigned w);
  T trunc(T a, unsigned w) { return extract(a, 0, w); }
  T ite(T c, T a, T b);
  T eq(T a, T b);
  T ne(T a, T b) { return Not(eq(a, b)); }
  T ult(T a, T b); T slt(T a, T b);
  T ule(T a, T b) { return Not(ult(b, a)); }
  T sle(T a, T b) { return Not(slt(b, a)); }
  T popcnt(T a); T ctlz(T a); T cttz(T a);
  T fop(Op op, unsigned w, const std::vector<T>& ks, u128 c = 0);
  T scalePow2(T x, T s, T K);
  T uf(unsigned id, unsigned w, const std::vector<T>& ks) { return raw(O_UF, w, ks.data(), ks.size(), id); }
  unsigned newUF(const std::string& name) { ufNames.push_back(name); return ufNames.size() - 1; }
  // LIN view
  void linView(T t, std::vector<std::pair<T, u128>>& at, u128& c);
  T mkLin(std::vector<std::pair<T, u128>>& at, u128 c, unsigned w);
  unsigned tz(T t, int depth = 0); // number of known trailing zero bits
  u128 umin(T t, int d = 0); u128 umax(T t, int depth = 0);   // upper bound (unsigned)
  // concrete evaluation
  u128 evalNode(T t, const std::function<u128(T)>& kv);
  // substitution under an assumption literal (shallow)
  std::string str(T t, int depth = 6);
  bool isTrue(T t) { return isC(t, 1) && W(t) == 1; }
  bool isFalse(T t) { return isC(t, 0) && W(t) == 1; }
};
extern Terms G;
