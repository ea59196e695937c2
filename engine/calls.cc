#include "exec.h"
#include "tactics.h"
#include "../harness/vp_rng.h"
#include <llvm/Support/raw_ostream.h>
#include <cstdarg>
using namespace llvm;
typedef std::vector<Val> Args;
static std::string sfmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, 512, f, a); va_end(a); return b; }
static bool hasName(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }
static std::map<std::string, std::string> gDem;
static const std::string& dem(const std::string& n) { auto& s = gDem[n]; if (s.empty()) s = llvm::demangle(n); return s; }

static T f2i(T x, unsigned w, bool sgn, bool uns64 = false); 
// x86 conversions: out of range / NaN -> indefinite
T fpInRangeS(Exec& E, T x, unsigned w) { // x (float bits) converts to signed w-bit by truncation without overflow
  unsigned fw = G.W(x), e, m; E.expBits(fw, e, m); unsigned bias = (1u << (e - 1)) - 1;
  T mag = G.extract(x, 0, fw - 1);
  if (bias < w - 1) return G.ult(mag, G.k((u128)((1u << e) - 1) << m, fw - 1)); // f16 -> i32/i64: anything finite
  u128 lim = (u128)(bias + w - 1) << m; // 2^(w-1)
  T lt = G.ult(mag, G.k(lim, fw - 1));
  // negative: trunc(x) >= -2^(w-1)  <=>  |x| < 2^(w-1)+1
  T s = G.extract(x, fw - 1, 1); u128 lim2;
  if (m >= w - 1) lim2 = lim + ((u128)1 << (m - (w - 1))); else lim2 = lim + 1;
  return G.Or(lt, G.And(s, G.ult(mag, G.k(lim2, fw - 1))));
}
T fpInRangeU(Exec& E, T x, unsigned w) {
  unsigned fw = G.W(x), e, m; E.expBits(fw, e, m); unsigned bias = (1u << (e - 1)) - 1;
  T mag = G.extract(x, 0, fw - 1), s = G.extract(x, fw - 1, 1);
  T lt1 = G.ult(mag, G.k((u128)bias << m, fw - 1)); // |x| < 1
  T pos = bias < w ? G.ult(mag, G.k((u128)((1u << e) - 1) << m, fw - 1)) : G.ult(mag, G.k((u128)(bias + w) << m, fw - 1));
  return G.ite(s, lt1, pos);
}
static T cvtt(Exec& E, T x, unsigned w) { return G.ite(fpInRangeS(E, x, w), G.fop(O_F2SI, w, {x}), G.k((u128)1 << (w - 1), w)); }
static T cvttu(Exec& E, T x, unsigned w) { return G.ite(fpInRangeU(E, x, w), G.fop(O_F2UI, w, {x}), G.k(~(u128)0, w)); }
static T cvtr(Exec& E, T x, unsigned w) { return cvtt(E, G.fop(O_FRINT, G.W(x), {x}, 0), w); }

T satS(T x, unsigned w) { // signed saturate x to w bits
  unsigned W = G.W(x); T hi = G.k(((u128)1 << (w - 1)) - 1, W), lo = G.k(~(u128)0 << (w - 1), W);
  return G.trunc(G.ite(G.slt(x, lo), lo, G.ite(G.slt(hi, x), hi, x)), w);
}
T satU(T x, unsigned w) { // signed x saturated to unsigned w bits
  unsigned W = G.W(x); T hi = G.k(((u128)1 << w) - 1, W), lo = G.k(0, W);
  return G.trunc(G.ite(G.slt(x, lo), lo, G.ite(G.slt(hi, x), hi, x)), w);
}
static T satUU(T x, unsigned w) { unsigned W = G.W(x); T hi = G.k(((u128)1 << w) - 1, W); return G.trunc(G.ite(G.ult(hi, x), hi, x), w); }

// ---- AES tables
static uint8_t SB[256], ISB[256]; static bool aesInit = false;
static uint8_t xt(uint8_t a) { return (a << 1) ^ ((a >> 7) * 0x1b); }
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static void initAes() {
  if (aesInit) return; aesInit = true;
  for (int i = 0; i < 256; i++) { uint8_t inv = 0; if (i) for (int j = 1; j < 256; j++) if (gm(i, j) == 1) { inv = j; break; } uint8_t s = inv, r = inv; for (int k = 0; k < 4; k++) { s = (s << 1) | (s >> 7); r ^= s; } SB[i] = r ^ 0x63; }
  for (int i = 0; i < 256; i++) ISB[SB[i]] = i;
}
static T tableLookup(T idx, const uint8_t* tab) {
  std::function<T(int, unsigned)> rec = [&](int bit, unsigned v) -> T { if (bit < 0) return G.k(tab[v], 8); return G.ite(G.extract(idx, bit, 1), rec(bit - 1, v | (1u << bit)), rec(bit - 1, v)); };
  return rec(7, 0);
}
T aesS(T x, bool inv) { initAes(); if (G.isC(x)) return G.k((inv ? ISB : SB)[(unsigned)G.C(x)], 8);
return tableLookup(x, inv ? ISB : SB); }
static T xtT(T a) { return G.Xor(G.shl(a, G.k(1, 8)), G.And(G.sext(G.extract(a, 7, 1), 8), G.k(0x1b, 8))); }
static T gmT(T a, unsigned b) { T r = G.k(0, 8); while (b) { if (b & 1) r = G.Xor(r, a); a = xtT(a); b >>= 1; } return r; }
static std::vector<T> mixCols(const std::vector<T>& s, bool inv) {
  static const unsigned f[4] = {2, 3, 1, 1}, g[4] = {14, 11, 13, 9}; std::vector<T> r(16);
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { T v = G.k(0, 8); for (int j = 0; j < 4; j++) v = G.Xor(v, gmT(s[c * 4 + j], (inv ? g : f)[(j - i + 4) % 4])); r[c * 4 + i] = v; }
  return r;
}
static std::vector<T> bytesOf(const Val& v, unsigned byteOff, unsigned n) { // from leaves
  std::vector<T> r; unsigned w = G.W(v[0]) / 8; for (unsigned i = 0; i < n; i++) { unsigned b = byteOff + i; r.push_back(G.extract(v[b / w], (b % w) * 8, 8)); } return r;
}
static void packBytes(const std::vector<T>& b, unsigned w, Val& out) { for (unsigned i = 0; i < b.size(); i += w) { std::vector<T> p(b.begin() + i, b.begin() + i + w); out.push_back(G.concat(p)); } }
T clmul64(T a, T b) { // carry-less product, 128 bits
  T A = G.zext(a, 128), r = G.k(0, 128);
  for (unsigned i = 0; i < 64; i++) r = G.Xor(r, G.And(G.shl(A, G.k(i, 128)), G.sext(G.extract(b, i, 1), 128)));
  return r;
}
static Val lane2(const Val& a, const Val& b, std::function<T(T, T)> fn) { Val r; for (unsigned i = 0; i < a.size(); i++) r.push_back(fn(a[i], b[i])); return r; }
static Val lane1(const Val& a, std::function<T(T)> fn) { Val r; for (T x : a) r.push_back(fn(x)); return r; }
static T bitMask(const Val& m, unsigned i) { return m.size() == 1 ? G.extract(m[0], i, 1) : m[i]; }

bool Exec::wantCut(const Function* F) {
  const std::string& d = dem(F->getName().str());
  for (auto& s : cutFns) if (d.find(s) != std::string::npos) return true;
  return false;
}

// x86 SIMD intrinsics, keyed by the name with target prefix / size suffix removed
// Prefix counts of mask bits in unary: atLeast(i, j) = at least j of the first i bits are set.
struct Thermo { std::vector<T> m; std::vector<std::vector<T>> ge; unsigned n;
  Thermo(std::vector<T> bits, unsigned n_) : m(std::move(bits)), n(n_) { for (T& b : m) if (G.W(b) != 1) b = G.extract(b, G.W(b) - 1, 1); ge.assign(n + 1, std::vector<T>(n + 2, G.k(0, 1))); ge[0][0] = G.k(1, 1); for (unsigned i = 0; i < n; i++) { ge[i + 1][0] = G.k(1, 1); for (unsigned j = 1; j <= i + 1; j++) ge[i + 1][j] = G.Or(ge[i][j], G.And(m[i], ge[i][j - 1])); } }
  T atLeast(unsigned i, unsigned j) { return ge[i][j]; }
  T exact(unsigned i, unsigned j) { return G.And(ge[i][j], G.Not(ge[i][j + 1])); }
  template <class V> T compacted(const V& x, unsigned j, T none) { T v = none; for (unsigned i = n; i-- > j;) v = G.ite(G.And(m[i], exact(i, j)), x[i], v); return v; } };
static bool x86(Exec& E, State& S, const CallBase* CI, const std::string& full, Args& a, Val& r) {
  std::string n = full.substr(9); // strip llvm.x86.
  std::string iset = n.substr(0, n.find('.'));
  std::string b = hasName(n, "vcvt") ? n : n.substr(n.find('.') + 1);
  auto strip = [&](const char* s) { size_t L = strlen(s); if (b.size() > L && b.compare(b.size() - L, L, s) == 0) { b.resize(b.size() - L); return true; } return false; };
  strip(".128") || strip(".256") || strip(".512");
  auto fmin = [&](T x, T y) { return G.ite(E.fcmp(CmpInst::FCMP_OLT, x, y), x, y); };
  auto fmax = [&](T x, T y) { return G.ite(E.fcmp(CmpInst::FCMP_OGT, x, y), x, y); };
  unsigned rw = 0, rn = 0; Type* rt = CI->getType(); if (!rt->isVoidTy()) { rn = E.leaves(rt); rw = rt->isStructTy() ? 0 : E.leafWidth(rt->getScalarType()); }
  auto blocks16 = [&](unsigned w) { return 128 / w; };
  // -- multiplies / averages
  if (b == "pmulhu.w") { r = lane2(a[0], a[1], [](T x, T y) { return G.extract(G.mul(G.zext(x, 32), G.zext(y, 32)), 16, 16); }); return true; }
  if (b == "pmulh.w") { r = lane2(a[0], a[1], [](T x, T y) { return G.extract(G.mul(G.sext(x, 32), G.sext(y, 32)), 16, 16); }); return true; }
  if (b == "pmul.hr.sw") { r = lane2(a[0], a[1], [](T x, T y) { T p = G.mul(G.sext(x, 32), G.sext(y, 32)); return G.extract(G.add(G.lshr(p, G.k(14, 32)), G.k(1, 32)), 1, 16); }); return true; }
  if (b == "pmadd.wd" || b == "pmaddw.d") { for (unsigned i = 0; i < rn; i++) { auto p = [&](unsigned j) { return G.mul(G.sext(a[0][j], 32), G.sext(a[1][j], 32)); }; r.push_back(G.add(p(2 * i), p(2 * i + 1))); } return true; }
  if (b == "pmadd.ub.sw" || b == "pmaddubs.w") { for (unsigned i = 0; i < rn; i++) { auto p = [&](unsigned j) { return G.mul(G.zext(a[0][j], 32), G.sext(a[1][j], 32)); }; r.push_back(satS(G.add(p(2 * i), p(2 * i + 1)), 16)); } return true; }
  if (b == "phadd.w" || b == "phadd.d" || b == "phsub.w" || b == "phsub.d") { unsigned n = blocks16(rw); for (unsigned i = 0; i < rn; i++) { unsigned l = i / n * n, q = i % n; const Val& s = q < n / 2 ? a[0] : a[1]; T x = s[l + 2 * (q % (n / 2))], y = s[l + 2 * (q % (n / 2)) + 1]; r.push_back(b[2] == 'a' ? G.add(x, y) : G.sub(x, y)); } return true; }
  if (b == "phminposuw") { T m = a[0][0], ix = G.k(0, 16); for (unsigned i = 1; i < 8; i++) { T c = G.ult(a[0][i], m); m = G.ite(c, a[0][i], m); ix = G.ite(c, G.k(i, 16), ix); } r.push_back(m); r.push_back(ix); for (unsigned i = 2; i < 8; i++) r.push_back(G.k(0, 16)); return true; }
  if (b == "pavg.b" || b == "pavg.w") { r = lane2(a[0], a[1], [](T x, T y) { unsigned w = G.W(x), W = w + 8; return G.extract(G.add(G.add(G.zext(x, W), G.zext(y, W)), G.k(1, W)), 1, w); }); return true; }
  if (b == "psad.bw") { for (unsigned i = 0; i < rn; i++) { T s = G.k(0, 64); for (unsigned j = 0; j < 8; j++) { T x = G.zext(a[0][i * 8 + j], 64), y = G.zext(a[1][i * 8 + j], 64); s = G.add(s, G.ite(G.ult(x, y), G.sub(y, x), G.sub(x, y))); } r.push_back(s); } return true; }
  if (b == "psign.b" || b == "psign.w" || b == "psign.d") { r = lane2(a[0], a[1], [](T x, T y) { unsigned w = G.W(x); return G.ite(G.slt(y, G.k(0, w)), G.neg(x), G.ite(G.eq(y, G.k(0, w)), G.k(0, w), x)); }); return true; }
  if (b == "mpsadbw" || b == "dbpsadbw") {
    unsigned imm = (unsigned)G.C(a[2][0]); auto ad = [](T x, T y) { T X = G.zext(x, 16), Y = G.zext(y, 16); return G.ite(G.ult(X, Y), G.sub(Y, X), G.sub(X, Y)); };
    if (b == "mpsadbw") for (unsigned l = 0; l < a[0].size() / 16; l++) { unsigned im = l ? imm >> 3 : imm; unsigned ao = l * 16 + ((im >> 2) & 1) * 4, bo = l * 16 + (im & 3) * 4; for (unsigned i = 0; i < 8; i++) { T s = G.k(0, 16); for (unsigned j = 0; j < 4; j++) s = G.add(s, ad(a[0][ao + i + j], a[1][bo + j])); r.push_back(s); } }
    else for (unsigned l = 0; l < a[0].size() / 16; l++) { // SRC2 shuffled by imm dwords
      std::vector<T> t; for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < 4; j++) t.push_back(a[1][l * 16 + ((imm >> (2 * i)) & 3) * 4 + j]);
      const Val& s1 = a[0]; unsigned o = l * 16;
      for (unsigned h = 0; h < 2; h++) { for (unsigned q = 0; q < 4; q++) { T s = G.k(0, 16); unsigned so = o + h * 8 + (q >= 2 ? 4 : 0), to = h * 8 + q; for (unsigned j = 0; j < 4; j++) s = G.add(s, ad(s1[so + j], t[to + j])); r.push_back(s); } }
    }
    return true;
  }
  // -- packs
  if (b == "packsswb" || b == "packssdw" || b == "packuswb" || b == "packusdw") {
    unsigned sw = G.W(a[0][0]), per = blocks16(sw), nb = a[0].size() / per; bool u = b[4] == 'u';
    for (unsigned l = 0; l < nb; l++) for (int k = 0; k < 2; k++) for (unsigned i = 0; i < per; i++) { T x = a[k][l * per + i]; r.push_back(u ? satU(x, sw / 2) : satS(x, sw / 2)); }
    return true;
  }
  // -- shifts
  { static const char* ops[] = {"psll", "psrl", "psra"};
    for (int k = 0; k < 3; k++) if (hasName(b, ops[k])) {
      std::string s = b.substr(4);
      auto sh = [&](T x, T c) { unsigned w = G.W(x); // c same width; saturating shift semantics
        T big = G.ule(G.k(w, w), c); if (k == 2) return G.ashr(x, G.ite(big, G.k(w - 1, w), c)); T q = k == 0 ? G.shl(x, c) : G.lshr(x, c); return G.ite(big, G.k(0, w), q); };
      if (s[0] == 'v') { r = lane2(a[0], a[1], [&](T x, T c) { return sh(x, c); }); return true; }
      unsigned w = G.W(a[0][0]); T c; T big = G.fls();
      if (s[0] == 'i') { T ci = a[1][0]; if (w < 32) { big = G.ule(G.k(w, 32), ci); c = G.trunc(ci, w); } else c = G.zext(ci, w); }
      else { std::vector<T> lo; for (unsigned i = 0; i < 64 / w; i++) lo.push_back(a[1][i]); T q = G.concat(lo); if (w < 64) { big = G.ule(G.k(w, 64), q); c = G.trunc(q, w); } else c = q; }
      r = lane1(a[0], [&](T x) { T v = sh(x, c); return G.ite(big, k == 2 ? G.sext(G.extract(x, w - 1, 1), w) : G.k(0, w), v); });
      return true;
    } }
  // -- shuffles
  if (b == "pshuf.b") { for (unsigned i = 0; i < rn; i++) { T ix = a[1][i]; unsigned base = i & ~15u; T v = a[0][base]; for (unsigned j = 1; j < 16; j++) v = v; 
      T sel = G.extract(ix, 0, 4); std::function<T(int, unsigned)> rec = [&](int bit, unsigned q) -> T { if (bit < 0) return a[0][base + q]; T c = G.extract(sel, bit, 1); if (G.isC(c)) return rec(bit - 1, q | ((unsigned)G.C(c) << bit)); return G.ite(c, rec(bit - 1, q | (1u << bit)), rec(bit - 1, q)); };
      r.push_back(G.ite(G.extract(ix, 7, 1), G.k(0, 8), rec(3, 0))); } return true; }
  auto select = [&](const std::vector<T>& src, T idx, unsigned bits) { std::function<T(int, unsigned)> rec = [&](int bit, unsigned q) -> T { if (bit < 0) return src[q]; T c = G.extract(idx, bit, 1); if (G.isC(c)) return rec(bit - 1, q | ((unsigned)G.C(c) << bit)); return G.ite(c, rec(bit - 1, q | (1u << bit)), rec(bit - 1, q)); }; return rec(bits - 1, 0); };
  auto lg = [](unsigned n) { unsigned b = 0; while ((1u << b) < n) b++; return b; };
  if (b == "permd" || b == "permps" || hasName(b, "permvar.")) { std::vector<T> src(a[0].begin(), a[0].end()); for (unsigned i = 0; i < rn; i++) r.push_back(select(src, a[1][i], lg(rn))); return true; }
  if (hasName(b, "vpermi2var.")) { std::vector<T> src(a[0].begin(), a[0].end()); src.insert(src.end(), a[2].begin(), a[2].end()); for (unsigned i = 0; i < rn; i++) r.push_back(select(src, a[1][i], lg(2 * rn))); return true; }
  if (b == "vpermilvar.ps" || b == "vpermilvar.pd") { unsigned per = 128 / rw; for (unsigned i = 0; i < rn; i++) { unsigned base = i / per * per; std::vector<T> src(a[0].begin() + base, a[0].begin() + base + per); r.push_back(per == 4 ? select(src, a[1][i], 2) : G.ite(G.extract(a[1][i], 1, 1), src[1], src[0])); } return true; }
  if (b == "pmultishift.qb") { for (unsigned i = 0; i < rn; i++) { std::vector<T> q; unsigned base = i & ~7u; for (unsigned j = 0; j < 8; j++) q.push_back(a[1][base + j]); T v = G.concat(q); T amt = G.zext(G.extract(a[0][i], 0, 6), 64); T rot = G.Or(G.lshr(v, amt), G.shl(v, G.And(G.sub(G.k(64, 64), amt), G.k(63, 64)))); rot = G.ite(G.eq(amt, G.k(0, 64)), v, rot); r.push_back(G.trunc(rot, 8)); } return true; }
  if (b == "insertps") { unsigned imm = (unsigned)G.C(a[2][0]); r = a[0]; r[(imm >> 4) & 3] = a[1][imm >> 6]; for (unsigned i = 0; i < 4; i++) if (imm >> i & 1) r[i] = G.k(0, 32); return true; }
  // -- blends
  if (b == "pblendvb" || b == "blendvps" || b == "blendvpd" || b == "blendv.ps" || b == "blendv.pd") { for (unsigned i = 0; i < rn; i++) r.push_back(G.ite(G.extract(a[2][i], rw - 1, 1), a[1][i], a[0][i])); return true; }
  // -- movmsk
  if (b == "movmsk.ps" || b == "movmsk.pd" || b == "pmovmskb") { std::vector<T> p; for (T x : a[0]) p.push_back(G.extract(x, G.W(x) - 1, 1)); r = {G.zext(G.concat(p), 32)}; return true; }
  if (hasName(b, "ptest") || hasName(b, "vtest")) {
    bool fl = b[0] == 'v'; T z = G.tru(), c = G.tru();
    for (unsigned i = 0; i < a[0].size(); i++) { T x = a[0][i], y = a[1][i]; if (fl) { x = G.extract(x, G.W(x) - 1, 1); y = G.extract(y, G.W(y) - 1, 1); } T k0 = G.k(0, G.W(x)); z = G.And(z, G.eq(G.And(x, y), k0)); c = G.And(c, G.eq(G.And(G.Not(x), y), k0)); }
    std::string w = b.substr(5); T v = hasName(w, "nzc") ? G.And(G.Not(z), G.Not(c)) : w[0] == 'z' ? z : c; r = {G.zext(v, 32)}; return true;
  }
  // -- float min/max (second operand returned when unordered or equal)
  if (b == "min.ps" || b == "min.pd" || b == "min.ph") { r = lane2(a[0], a[1], fmin); return true; }
  if (b == "max.ps" || b == "max.pd" || b == "max.ph") { r = lane2(a[0], a[1], fmax); return true; }
  if (b == "min.ss" || b == "min.sd") { r = a[0]; r[0] = fmin(a[0][0], a[1][0]); return true; }
  if (b == "max.ss" || b == "max.sd") { r = a[0]; r[0] = fmax(a[0][0], a[1][0]); return true; }
  // -- fp compare
  static const unsigned P[32] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
  if (b == "cmp.ps" || b == "cmp.pd") { unsigned p = (unsigned)G.C(a[2][0]) & 15; r = lane2(a[0], a[1], [&](T x, T y) { return G.sext(E.fcmp(P[p], x, y), G.W(x)); }); return true; }
  if (b == "cmp.ss" || b == "cmp.sd") { unsigned p = (unsigned)G.C(a[2][0]) & 15; r = a[0]; r[0] = G.sext(E.fcmp(P[p], a[0][0], a[1][0]), G.W(a[0][0])); return true; }
  if (b == "mask.cmp.ps" || b == "mask.cmp.pd" || b == "mask.cmp.ph") { unsigned p = (unsigned)G.C(a[2][0]) & 15; for (unsigned i = 0; i < rn; i++) r.push_back(G.And(E.fcmp(P[p], a[0][i], a[1][i]), bitMask(a[3], i))); return true; }
  if (b == "mask.cmp.ss" || b == "mask.cmp.sd") { unsigned p = (unsigned)G.C(a[2][0]) & 15; T m = G.And(E.fcmp(P[p], a[0][0], a[1][0]), G.extract(a[3][0], 0, 1)); r = {G.zext(m, 8)}; return true; }
  for (const char* cn : {"comi", "ucomi"}) if (hasName(b, cn)) { std::string c = b.substr(strlen(cn)); unsigned p = hasName(c, "eq") ? CmpInst::FCMP_OEQ : hasName(c, "lt") ? CmpInst::FCMP_OLT : hasName(c, "le") ? CmpInst::FCMP_OLE : hasName(c, "gt") ? CmpInst::FCMP_OGT : hasName(c, "ge") ? CmpInst::FCMP_OGE : CmpInst::FCMP_UNE; r = {G.zext(E.fcmp(p, a[0][0], a[1][0]), 32)}; return true; }
  if (hasName(b, "fpclass.")) {
    unsigned imm = (unsigned)G.C(a[1][0]);
    for (unsigned i = 0; i < a[0].size(); i++) { T x = a[0][i]; unsigned w = G.W(x), e, m; E.expBits(w, e, m); T s = G.extract(x, w - 1, 1), ex = G.extract(x, m, e), ma = G.extract(x, 0, m); T e1 = G.eq(ex, G.k((1u << e) - 1, e)), e0 = G.eq(ex, G.k(0, e)), m0 = G.eq(ma, G.k(0, m)); T q = G.extract(x, m - 1, 1); T v = G.fls();
      if (imm & 1) v = G.Or(v, G.And(G.And(e1, G.Not(m0)), q)); if (imm & 2) v = G.Or(v, G.And(G.And(e0, m0), G.Not(s))); if (imm & 4) v = G.Or(v, G.And(G.And(e0, m0), s)); if (imm & 8) v = G.Or(v, G.And(G.And(e1, m0), G.Not(s))); if (imm & 16) v = G.Or(v, G.And(G.And(e1, m0), s)); if (imm & 32) v = G.Or(v, G.And(e0, G.Not(m0))); if (imm & 64) v = G.Or(v, G.And(G.And(s, G.Not(e1)), G.Not(G.And(e0, m0)))); if (imm & 128) v = G.Or(v, G.And(G.And(e1, G.Not(m0)), G.Not(q)));
      r.push_back(v); }
    if (rn == 1) { r.resize(1); }
    return true;
  }
  // -- fp rounding / conversion
  auto rint = [&](T x, unsigned imm) { static const unsigned mode[8] = {0, 1, 2, 3, 0, 0, 0, 0}; return G.fop(O_FRINT, G.W(x), {x}, mode[imm & 7]); };
  if (b == "round.ps" || b == "round.pd") { unsigned im = (unsigned)G.C(a[1][0]); r = lane1(a[0], [&](T x) { return rint(x, im); }); return true; }
  if (b == "round.ss" || b == "round.sd") { r = a[0]; r[0] = rint(a[1][0], (unsigned)G.C(a[2][0])); return true; }
  if (hasName(b, "mask.rndscale.")) { unsigned im = (unsigned)G.C(a[1][0]); if (im >> 4) throw Unsupported("rndscale scale"); if (b.find(".ss") != std::string::npos || b.find(".sd") != std::string::npos) throw Unsupported("rndscale scalar"); for (unsigned i = 0; i < rn; i++) r.push_back(G.ite(bitMask(a[3], i), rint(a[0][i], im), a[2][i])); return true; }
  if (b == "cvttps2dq" || b == "cvttpd2dq" || b == "cvtt.ps2dq" || b == "cvtt.pd2dq") { for (T x : a[0]) r.push_back(cvtt(E, x, rw)); while (r.size() < rn) r.push_back(G.k(0, rw)); return true; }
  if (b == "cvtps2dq" || b == "cvtpd2dq" || b == "cvt.ps2dq" || b == "cvt.pd2dq") { for (T x : a[0]) r.push_back(cvtr(E, x, rw)); while (r.size() < rn) r.push_back(G.k(0, rw)); return true; }
  if (b == "cvtpd2ps" || b == "cvt.pd2.ps") { for (T x : a[0]) r.push_back(G.fop(O_FPTRUNC, 32, {x})); while (r.size() < rn) r.push_back(G.k(0, rw)); return true; }
  if (b == "cvttss2si" || b == "cvttss2si64" || b == "cvttsd2si" || b == "cvttsd2si64") { r = {cvtt(E, a[0][0], rw)}; return true; }
  if (b == "cvtss2si" || b == "cvtss2si64" || b == "cvtsd2si" || b == "cvtsd2si64") { r = {cvtr(E, a[0][0], rw)}; return true; }
  if (b == "cvtsd2ss") { r = a[0]; r[0] = G.fop(O_FPTRUNC, 32, {a[1][0]}); return true; }
  if (hasName(b, "mask.cvt")) {
    std::string c = b.substr(8); bool tr = c[0] == 't'; if (tr) c = c.substr(1);
    // forms: ps2dq ps2udq ps2qq ps2uqq pd2dq pd2udq pd2qq pd2uqq pd2ps ps2pd
    if (c == "pd2ps" || c == "ps2pd") { for (unsigned i = 0; i < rn; i++) { T v = i < a[0].size() ? G.fop(c == "pd2ps" ? O_FPTRUNC : O_FPEXT, rw, {a[0][i]}) : G.k(0, rw); r.push_back(i < a[0].size() ? G.ite(bitMask(a[2], i), v, a[1][i]) : v); } return true; }
    if (c == "qq2ps" || c == "uqq2ps") { for (unsigned i = 0; i < rn; i++) r.push_back(i < a[0].size() ? G.ite(bitMask(a[2], i), G.fop(c[0] == 'u' ? O_UI2F : O_SI2F, rw, {a[0][i]}), a[1][i]) : G.k(0, rw)); return true; }
    size_t p = c.find('2'); if (p != std::string::npos) { if (c.find("qq2") == 0 || c.find("uqq2") == 0 || c.find("dq2") != std::string::npos) throw Unsupported("mask.cvt form"); bool u = c[p + 1] == 'u'; for (unsigned i = 0; i < rn; i++) { if (i >= a[0].size()) { r.push_back(G.k(0, rw)); continue; } T x = a[0][i]; T v = u ? cvttu(E, tr ? x : G.fop(O_FRINT, G.W(x), {x}, 0), rw) : tr ? cvtt(E, x, rw) : cvtr(E, x, rw); r.push_back(G.ite(bitMask(a[2], i), v, a[1][i])); } return true; }
  }
  if (b == "vcvtps2ph") { for (T x : a[0]) r.push_back(G.fop(O_FPTRUNC, 16, {x})); while (r.size() < rn) r.push_back(G.k(0, rw)); if (G.C(a[1][0]) & 3 && !(G.C(a[1][0]) & 4)) throw Unsupported("vcvtps2ph mode"); return true; }
  if (b == "mask.vcvtps2ph") { for (unsigned i = 0; i < rn; i++) { if (i >= a[0].size()) { r.push_back(G.k(0, 16)); continue; } r.push_back(G.ite(bitMask(a[3], i), G.fop(O_FPTRUNC, 16, {a[0][i]}), a[2][i])); } return true; }
  if (b == "vcvtph2ps") { for (unsigned i = 0; i < rn; i++) r.push_back(G.fop(O_FPEXT, 32, {a[0][i]})); return true; }
  if (hasName(b, "sqrt.")) { if (a.size() == 2 && a[0].size() == a[1].size()) throw Unsupported("sqrt form"); r = lane1(a[0], [](T x) { return G.fop(O_FSQRT, G.W(x), {x}); }); return true; }
  for (auto& pr : std::vector<std::pair<const char*, Op>>{{"add.p", O_FADD}, {"sub.p", O_FSUB}, {"mul.p", O_FMUL}, {"div.p", O_FDIV}}) if (hasName(b, pr.first)) { if (a.size() > 2 && !(G.isC(a[2][0]) && (G.C(a[2][0]) == 4 || G.C(a[2][0]) == 8))) throw Unsupported("rounding mode"); r = lane2(a[0], a[1], [&](T x, T y) { return G.fop(pr.second, G.W(x), {x, y}); }); return true; }
  if (hasName(b, "addsub.p")) { for (unsigned i = 0; i < rn; i++) r.push_back(G.fop(i & 1 ? O_FADD : O_FSUB, rw, {a[0][i], a[1][i]})); return true; }
  if (hasName(b, "vfmaddsub") ) { for (unsigned i = 0; i < rn; i++) { T c = a[2][i]; if (!(i & 1)) c = G.Xor(c, G.k((u128)1 << (rw - 1), rw)); r.push_back(G.fop(O_FMA, rw, {a[0][i], a[1][i], c})); } return true; }
  // opaque approximations / scale: uninterpreted functions of their inputs
  for (const char* q : {"rcp.ps", "rsqrt.ps", "rcp14.ps", "rsqrt14.ps", "rcp14.pd", "rsqrt14.pd"}) if (b == q) { static std::map<std::string, unsigned> ids; std::string key = b; if (!ids.count(key)) ids[key] = G.newUF(key); for (unsigned i = 0; i < rn; i++) { T v = G.uf(ids[key], rw, {a[0][i]}); if (a.size() == 3) v = G.ite(bitMask(a[2], i), v, a[1][i]); r.push_back(v); } E.usedModels.insert("uninterpreted:" + b); return true; }
  if ((hasName(b, "mask.scalef.") || hasName(b, "mask.getexp.")) && (rw == 32 || rw == 64)) {
    const unsigned mb = rw == 32 ? 23 : 52, eb = rw == 32 ? 8 : 11; const u128 one = 1, bias = rw == 32 ? 127 : 1023; const bool sc = b[5] == 's'; const unsigned na = sc ? 2 : 1;
    if (a.size() > na + 2) { u128 rm = G.C(a[na + 2][0]); if (rm != 4 && rm != 8) throw Unsupported("rounding mode"); }
    T nan = G.concat({G.k(one << (mb - 1), mb), G.k(~(u128)0, eb), G.k(0, 1)}), infE = G.k(~(u128)0, eb);
    for (unsigned i = 0; i < rn; i++) { T x = a[0][i], v; 
      T mx = G.extract(x, 0, mb), ex = G.extract(x, mb, eb), sg = G.extract(x, rw - 1, 1), m0 = G.eq(mx, G.k(0, mb)), e1 = G.eq(ex, infE), e0 = G.eq(ex, G.k(0, eb)), xn = G.And(e1, G.Not(m0));
      if (sc) { T y = a[1][i], ym0 = G.eq(G.extract(y, 0, mb), G.k(0, mb)), ye1 = G.eq(G.extract(y, mb, eb), infE), yn = G.And(ye1, G.Not(ym0)), yi = G.And(ye1, ym0), ys = G.extract(y, rw - 1, 1);
        auto flt = [&](int n) { double dv = n; float fv = n; uint64_t db; uint32_t fb; memcpy(&db, &dv, 8); memcpy(&fb, &fv, 4); return rw == 32 ? G.k(fb, 32) : G.k(db, 64); };
        T F = G.fop(O_FRINT, rw, {y}, 1), K = G.ite(E.fcmp(CmpInst::FCMP_OLT, F, flt(-4096)), G.k((u128)-4096, 16), G.ite(E.fcmp(CmpInst::FCMP_OGT, F, flt(4096)), G.k(4096, 16), G.trunc(G.fop(O_F2SI, rw, {F}), 16)));
        T x0 = G.And(e0, m0), xi = G.And(e1, m0), inf = G.concat({G.k(0, mb), infE, sg}), pinf = G.concat({G.k(0, mb), infE, G.k(0, 1)}), zero = G.concat({G.k(0, mb), G.k(0, eb), sg});
        v = G.ite(yn, nan, G.ite(yi, G.ite(ys, G.ite(xn, G.k(0, rw), G.ite(xi, nan, zero)), G.ite(xn, pinf, G.ite(x0, nan, inf))), G.ite(xn, nan, G.scalePow2(x, G.k(0, 1), K))));
      } else { T z = G.ctlz(G.zext(mx, mb + 1)); T K = G.sub(G.ite(e0, G.sub(G.k(1, 32), mb + 1 >= 32 ? G.trunc(z, 32) : G.zext(z, 32)), G.zext(ex, 32)), G.k(bias, 32));
        v = G.ite(xn, nan, G.ite(e1, G.concat({G.k(0, mb), infE, G.k(0, 1)}), G.ite(G.And(e0, m0), G.concat({G.k(0, mb), infE, G.k(1, 1)}), G.fop(O_SI2F, rw, {K})))); }
      r.push_back(G.ite(bitMask(a[na + 1], i), v, a[na][i])); }
    return true;
  }
  if (hasName(b, "mask.getexp.") || hasName(b, "mask.getmant.") || hasName(b, "mask.scalef.")) {
    static std::map<std::string, unsigned> ids; std::string key = b; if (!ids.count(key)) ids[key] = G.newUF(key); E.usedModels.insert("uninterpreted:" + b);
    unsigned na = b[5] == 's' ? 2 : 1; unsigned off = b.find("getmant") != std::string::npos ? 1 : 0;
    for (unsigned i = 0; i < rn; i++) { std::vector<T> k; for (unsigned j = 0; j < na; j++) k.push_back(a[j][i]); if (off) k.push_back(a[1][0]); T v = G.uf(ids[key], rw, k); r.push_back(G.ite(bitMask(a[na + off + 1], i), v, a[na + off][i])); }
    return true;
  }
  // -- avx512 integer
  if (hasName(b, "pternlog.")) { unsigned imm = (unsigned)G.C(a[3][0]); for (unsigned i = 0; i < rn; i++) { T A = a[0][i], B = a[1][i], C = a[2][i], v = G.k(0, rw);
      for (unsigned k = 0; k < 8; k++) if (imm >> k & 1) { T t = G.And(G.And(k & 4 ? A : G.Not(A), k & 2 ? B : G.Not(B)), k & 1 ? C : G.Not(C)); v = G.Or(v, t); } r.push_back(v); } return true; }
  if (hasName(b, "conflict.")) { for (unsigned i = 0; i < rn; i++) { std::vector<T> bits; for (unsigned j = 0; j < i; j++) bits.push_back(G.eq(a[0][j], a[0][i])); if (bits.empty()) r.push_back(G.k(0, rw)); else r.push_back(G.zext(G.concat(bits), rw)); } return true; }
  if (hasName(b, "mask.compress.")) { // data, passthru, mask
    std::vector<T> mb; for (unsigned i = 0; i < rn; i++) mb.push_back(bitMask(a[2], i)); Thermo th(mb, rn);
    for (unsigned j = 0; j < rn; j++) r.push_back(th.compacted(a[0], j, a[1][j]));
    return true;
  }
  if (hasName(b, "mask.expand.")) { unsigned N = rn; // data, passthru, mask
    std::vector<T> mb; for (unsigned i = 0; i < N; i++) mb.push_back(bitMask(a[2], i)); Thermo th(mb, N);
    for (unsigned i = 0; i < N; i++) { T v = a[1][i]; for (unsigned j = i + 1; j-- > 0;) v = G.ite(G.And(th.m[i], th.exact(i, j)), a[0][j], v); r.push_back(v); }
    return true;
  }
  if (hasName(b, "mask.pmov")) { // saturating truncations: mask.pmovs.qd / pmovus.qd / pmov.qd
    bool s = b[9] == 's', us = b[9] == 'u'; for (unsigned i = 0; i < rn; i++) { if (i >= a[0].size()) { r.push_back(G.k(0, rw)); continue; } T x = a[0][i]; T v = s ? satS(x, rw) : us ? satUU(x, rw) : G.trunc(x, rw); r.push_back(G.ite(bitMask(a[2], i), v, a[1][i])); }
    return true;
  }
  if (hasName(b, "kadd.") ) { Val v; T x = G.concat(std::vector<T>(a[0].begin(), a[0].end())), y = G.concat(std::vector<T>(a[1].begin(), a[1].end())); T s = G.add(x, y); for (unsigned i = 0; i < rn; i++) r.push_back(G.extract(s, i, 1)); return true; }
  if (hasName(b, "kortest") || hasName(b, "ktest")) { T x = G.concat(std::vector<T>(a[0].begin(), a[0].end())), y = G.concat(std::vector<T>(a[1].begin(), a[1].end())); unsigned w = G.W(x); T v; if (hasName(b, "kortestz")) v = G.eq(G.Or(x, y), G.k(0, w)); else if (hasName(b, "kortestc")) v = G.eq(G.Or(x, y), G.k(~(u128)0, w)); else if (hasName(b, "ktestz")) v = G.eq(G.And(x, y), G.k(0, w)); else v = G.eq(G.And(G.Not(x), y), G.k(0, w)); r = {G.zext(v, 32)}; return true; }
  if (b == "vpshldv" || b == "vpshrdv") throw Unsupported("vpshldv");
  // -- gathers / masked memory
  if (hasName(b, "gather.") || hasName(b, "mask.gather")) {
    // avx2: (src, ptr, idx, mask(vector msb), scale i8); avx512: (src, ptr, idx, mask <n x i1>, scale i32)
    r = a[0]; T base = a[1][0]; u128 sc = G.C(a[4][0]); bool vm = G.W(a[3][0]) > 1; T pc0 = S.pc;
    for (unsigned i = 0; i < rn; i++) { if (i >= a[2].size() || i >= a[3].size()) { r[i] = G.k(0, rw); continue; } T m = vm ? G.extract(a[3][i], G.W(a[3][i]) - 1, 1) : a[3][i]; if (G.isFalse(m)) continue; T ad = G.add(base, G.mulc(G.sext(a[2][i], 64), sc)); S.pc = G.And(pc0, m); T v = E.loadBytes(S, ad, rw / 8, "gather"); r[i] = G.ite(m, v, a[0][i]); }
    S.pc = pc0; return true;
  }
  if (hasName(b, "mask.scatter")) { // (ptr, mask, idx, val, scale)
    T base = a[0][0]; u128 sc = G.C(a[4][0]); T pc0 = S.pc; Val v = a[3];
    for (unsigned i = 0; i < v.size() && i < a[2].size() && i < a[1].size(); i++) { T m = a[1][i]; if (G.isFalse(m)) continue; T ad = G.add(base, G.mulc(G.sext(a[2][i], 64), sc)); S.pc = G.And(pc0, m); unsigned nb = G.W(v[i]) / 8; if (G.isTrue(m)) E.storeBytes(S, ad, v[i], nb, "scatter"); else { size_t keep = E.obls.size(); T old = E.loadBytes(S, ad, nb, "scatter"); E.obls.resize(keep); E.storeBytesIf(S, m, ad, v[i], old, nb); } }
    S.pc = pc0; return true;
  }
  if (hasName(b, "maskload.")) { T pc0 = S.pc; for (unsigned i = 0; i < rn; i++) { T m = G.extract(a[1][i], G.W(a[1][i]) - 1, 1); if (G.isFalse(m)) { r.push_back(G.k(0, rw)); continue; } S.pc = G.And(pc0, m); T v = E.loadBytes(S, G.add(a[0][0], G.k(i * rw / 8, 64)), rw / 8, "maskload"); r.push_back(G.ite(m, v, G.k(0, rw))); } S.pc = pc0; return true; }
  if (hasName(b, "maskstore.") || b == "maskmov.dqu") {
    bool dq = b == "maskmov.dqu"; const Val& v = dq ? a[0] : a[2]; const Val& mk = a[1]; T p = dq ? a[2][0] : a[0][0]; unsigned nb = G.W(v[0]) / 8; T pc0 = S.pc;
    for (unsigned i = 0; i < v.size(); i++) { T m = G.extract(mk[i], G.W(mk[i]) - 1, 1); if (G.isFalse(m)) continue; S.pc = G.And(pc0, m); T ad = G.add(p, G.k(i * nb, 64)); size_t keep = E.obls.size(); T old = G.isTrue(m) ? v[i] : E.loadBytes(S, ad, nb, "maskstore"); E.obls.resize(keep); E.storeBytesIf(S, m, ad, v[i], old, nb); }
    S.pc = pc0; return true;
  }
  // -- crypto
  if (iset == "aesni") {
    unsigned n16 = a[0].size() * G.W(a[0][0]) / 128;
    if (hasName(b, "aesimc")) { packBytes(mixCols(bytesOf(a[0], 0, 16), true), 8, r); return true; }
    if (hasName(b, "aeskeygenassist")) { unsigned rc = (unsigned)G.C(a[1][0]); auto s = bytesOf(a[0], 0, 16); std::vector<T> o; for (int w : {1, 3}) { std::vector<T> x; for (int j = 0; j < 4; j++) x.push_back(aesS(s[w * 4 + j], false)); for (int j = 0; j < 4; j++) o.push_back(x[j]); for (int j = 0; j < 4; j++) o.push_back(j == 0 ? G.Xor(x[1], G.k(rc, 8)) : x[(j + 1) % 4]); } packBytes(o, 8, r); return true; }
    bool dec = hasName(b, "aesdec"), last = b.find("last") != std::string::npos;
    for (unsigned l = 0; l < n16; l++) { auto s = bytesOf(a[0], l * 16, 16), k = bytesOf(a[1], l * 16, 16); std::vector<T> t(16);
      for (int c = 0; c < 4; c++) for (int j = 0; j < 4; j++) t[c * 4 + j] = aesS(s[((dec ? c - j + 4 : c + j) % 4) * 4 + j], dec);
      if (!last) t = mixCols(t, dec);
      for (int j = 0; j < 16; j++) t[j] = G.Xor(t[j], k[j]); packBytes(t, G.W(a[0][0]) / 8, r); }
    return true;
  }
  if (iset == "pclmulqdq") { unsigned im = (unsigned)G.C(a[2][0]); for (unsigned l = 0; l < a[0].size() / 2; l++) { T p = clmul64(a[0][l * 2 + (im & 1)], a[1][l * 2 + ((im >> 4) & 1)]); r.push_back(G.trunc(p, 64)); r.push_back(G.extract(p, 64, 64)); } return true; }
  if (hasName(b, "pdep.") || hasName(b, "pext.") || hasName(b, "bzhi.") || hasName(b, "bextr.")) {
    unsigned w = G.W(a[0][0]);
    if (hasName(b, "bzhi.")) { T n = G.zext(G.extract(a[1][0], 0, 8), w); T m = G.sub(G.shl(G.k(1, w), n), G.k(1, w)); r = {G.ite(G.ult(n, G.k(w, w)), G.And(a[0][0], m), a[0][0])}; return true; }
    if (hasName(b, "pext.") || hasName(b, "pdep.")) { bool pe = b[1] == 'e'; T res = G.k(0, w), cnt = G.k(0, w); for (unsigned i = 0; i < w; i++) { T m = G.extract(a[1][0], i, 1); if (pe) { T bit = G.And(G.extract(a[0][0], i, 1), m); res = G.Or(res, G.shl(G.zext(bit, w), cnt)); } else { T bit = G.And(G.extract(G.lshr(a[0][0], cnt), 0, 1), m); res = G.Or(res, G.shl(G.zext(bit, w), G.k(i, w))); } cnt = G.add(cnt, G.zext(m, w)); } r = {res}; return true; }
  }
  if (hasName(b, "crc32.")) { static std::map<std::string, unsigned> ids; if (!ids.count(b)) ids[b] = G.newUF(b); r = {G.uf(ids[b], rw, {a[0][0], a[1][0]})}; return true; }
  if (b == "ldmxcsr" || b == "stmxcsr" || b == "mwait" || b == "monitor" || b == "lfence" || b == "sfence" || b == "mfence" || b == "clflush" || b == "pause") { if (b == "stmxcsr") throw Unsupported("stmxcsr"); return true; }
  return false;
}
void Exec::storeBytesIf(State& S, T m, T ptr, T val, T old, unsigned n) {
  // region log supports guards directly; other objects use a read-modify-write
  std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(ptr, tg, G.tru(), S);
  for (auto& e : tg) { int id = e.second.first; if (id >= 0 && S.mem.count(id) && S.mem[id]->region) { 
      size_t before = S.mem[id]->log.size(); size_t ob = obls.size(); (void)ob;
      if (tg.size() > 1) throw Unsupported("masked store to several regions");
      storeBytes(S, ptr, val, n, "masked"); Obj* o = S.wr(id); for (size_t i = before; i < o->log.size(); i++) o->log[i].guard = G.And(o->log[i].guard, m); return; } }
  storeBytes(S, ptr, G.ite(m, val, old), n, "masked");
}

bool Exec::execIntrinsic(const CallBase* CI, StringRef nameR, Args& a, Frame& f, State& S, Val& r, bool& handled) {
  std::string name = nameR.str(); handled = true;
  auto id = CI->getCalledFunction()->getIntrinsicID();
  Type* rt = CI->getType();
  auto l2 = [&](std::function<T(T, T)> fn) { r = lane2(a[0], a[1], fn); return true; };
  auto l1 = [&](std::function<T(T)> fn) { r = lane1(a[0], fn); return true; };
  auto bfl = [&](Type* t) { return t->getScalarType()->isBFloatTy(); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect:  case Intrinsic::donothing: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: r = {G.k(0, 64)}; return true;
    case Intrinsic::invariant_end: return true;
    case Intrinsic::assume: { if (CI->getNumOperandBundles()) return true; T c = a[0][0]; if (G.isTrue(c)) return true; oblig(S, c, "__builtin_assume / HWY_ASSUME holds"); S.pc = G.And(S.pc, c); return !G.isFalse(S.pc); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: r = a[0]; return true;
    case Intrinsic::is_constant: r = {G.fls()}; return true;
    case Intrinsic::objectsize: r = {G.k(~(u128)0, leafWidth(rt))}; return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: oblig(S, G.fls(), "trap reached"); return false;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: memcpySym(S, a[0][0], a[1][0], a[2][0], G.isC(a[2][0])); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: memsetSym(S, a[0][0], a[1][0], a[2][0]); return true;
    case Intrinsic::ctpop: return l1([](T x) { return G.popcnt(x); });
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      bool zu = G.isTrue(a[1][0]); bool lz = id == Intrinsic::ctlz;
      if (zu) for (T x : a[0]) oblig(S, G.ne(x, G.k(0, G.W(x))), lz ? "ctlz argument nonzero" : "cttz argument nonzero");
      return l1([&](T x) { return lz ? G.ctlz(x) : G.cttz(x); }); }
    case Intrinsic::bswap: return l1([](T x) { std::vector<T> p; for (int i = G.W(x) / 8 - 1; i >= 0; i--) p.push_back(G.extract(x, i * 8, 8)); return G.concat(p); });
    case Intrinsic::bitreverse: return l1([](T x) { std::vector<T> p; for (int i = G.W(x) - 1; i >= 0; i--) p.push_back(G.extract(x, i, 1)); return G.concat(p); });
    case Intrinsic::abs: return l1([](T x) { return G.ite(G.slt(x, G.k(0, G.W(x))), G.neg(x), x); });
    case Intrinsic::smin: return l2([](T x, T y) { return G.ite(G.slt(x, y), x, y); });
    case Intrinsic::smax: return l2([](T x, T y) { return G.ite(G.slt(y, x), x, y); });
    case Intrinsic::umin: return l2([](T x, T y) { return G.ite(G.ult(x, y), x, y); });
    case Intrinsic::umax: return l2([](T x, T y) { return G.ite(G.ult(y, x), x, y); });
    case Intrinsic::uadd_sat: return l2([](T x, T y) { T s = G.add(x, y); return G.ite(G.ult(s, x), G.k(~(u128)0, G.W(x)), s); });
    case Intrinsic::usub_sat: return l2([](T x, T y) { return G.ite(G.ult(x, y), G.k(0, G.W(x)), G.sub(x, y)); });
    case Intrinsic::sadd_sat: return l2([](T x, T y) { unsigned w = G.W(x); return satS(G.add(G.sext(x, w + 1), G.sext(y, w + 1)), w); });
    case Intrinsic::ssub_sat: return l2([](T x, T y) { unsigned w = G.W(x); return satS(G.sub(G.sext(x, w + 1), G.sext(y, w + 1)), w); });
    case Intrinsic::uadd_with_overflow: { T s = G.add(a[0][0], a[1][0]); r = {s, G.ult(s, a[0][0])}; return true; }
    case Intrinsic::usub_with_overflow: { r = {G.sub(a[0][0], a[1][0]), G.ult(a[0][0], a[1][0])}; return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { unsigned w = G.W(a[0][0]); T x = G.sext(a[0][0], w + 1), y = G.sext(a[1][0], w + 1); T s = id == Intrinsic::sadd_with_overflow ? G.add(x, y) : G.sub(x, y); T t = G.trunc(s, w); r = {t, G.ne(G.sext(t, w + 1), s)}; return true; }
    case Intrinsic::umul_with_overflow: { unsigned w = G.W(a[0][0]); if (w > 64) throw Unsupported("umul128 overflow"); T p = G.mul(G.zext(a[0][0], 2 * w), G.zext(a[1][0], 2 * w)); r = {G.trunc(p, w), G.ne(G.extract(p, w, w), G.k(0, w))}; return true; }
    case Intrinsic::smul_with_overflow: { unsigned w = G.W(a[0][0]); if (w > 64) throw Unsupported("smul128 overflow"); T p = G.mul(G.sext(a[0][0], 2 * w), G.sext(a[1][0], 2 * w)); T t = G.trunc(p, w); r = {t, G.ne(G.sext(t, 2 * w), p)}; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      for (unsigned i = 0; i < a[0].size(); i++) { T x = a[0][i], y = a[1][i], c = a[2][i]; unsigned w = G.W(x); T cm = (w & (w - 1)) == 0 ? G.And(c, G.k(w - 1, w)) : G.urem(c, G.k(w, w)); bool L = id == Intrinsic::fshl;
        T inv = G.sub(G.k(w - 1, w), cm); T one = G.k(1, w);
        r.push_back(L ? G.Or(G.shl(x, cm), G.lshr(G.lshr(y, one), inv)) : G.Or(G.lshr(y, cm), G.shl(G.shl(x, one), inv))); }
      return true; }
    case Intrinsic::fabs: return l1([](T x) { return G.And(x, G.k(Terms::msk(G.W(x) - 1), G.W(x))); });
    case Intrinsic::copysign: return l2([](T x, T y) { unsigned w = G.W(x); return G.concat2(G.extract(y, w - 1, 1), G.extract(x, 0, w - 1)); });
    case Intrinsic::floor: return l1([](T x) { return G.fop(O_FRINT, G.W(x), {x}, 1); });
    case Intrinsic::ceil: return l1([](T x) { return G.fop(O_FRINT, G.W(x), {x}, 2); });
    case Intrinsic::trunc: return l1([](T x) { return G.fop(O_FRINT, G.W(x), {x}, 3); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return l1([](T x) { return G.fop(O_FRINT, G.W(x), {x}, 0); });
    case Intrinsic::round: return l1([](T x) { return G.fop(O_FRINT, G.W(x), {x}, 4); });
    case Intrinsic::sqrt: return l1([](T x) { return G.fop(O_FSQRT, G.W(x), {x}); });
    case Intrinsic::fma: for (unsigned i = 0; i < a[0].size(); i++) r.push_back(G.fop(O_FMA, G.W(a[0][i]), {a[0][i], a[1][i], a[2][i]})); return true;
    case Intrinsic::fmuladd: for (unsigned i = 0; i < a[0].size(); i++) r.push_back(G.fop(O_FADD, G.W(a[0][i]), {G.fop(O_FMUL, G.W(a[0][i]), {a[0][i], a[1][i]}), a[2][i]})); return true;
    case Intrinsic::minnum: return l2([&](T x, T y) { return G.ite(isNaN(x), y, G.ite(isNaN(y), x, G.ite(fcmp(CmpInst::FCMP_OLT, x, y), x, y))); });
    case Intrinsic::maxnum: return l2([&](T x, T y) { return G.ite(isNaN(x), y, G.ite(isNaN(y), x, G.ite(fcmp(CmpInst::FCMP_OGT, x, y), x, y))); });
    case Intrinsic::lrint: case Intrinsic::llrint: r = {cvtr(*this, a[0][0], leafWidth(rt))}; return true;
    case Intrinsic::is_fpclass: {
      unsigned imm = (unsigned)G.C(a[1][0]);
      for (T x : a[0]) { unsigned w = G.W(x), e, m; expBits(w, e, m); T s = G.extract(x, w - 1, 1), ex = G.extract(x, m, e), ma = G.extract(x, 0, m), q = G.extract(x, m - 1, 1); T e1 = G.eq(ex, G.k((1u << e) - 1, e)), e0 = G.eq(ex, G.k(0, e)), m0 = G.eq(ma, G.k(0, m)), nm = G.And(G.Not(e1), G.Not(e0)), ns = G.Not(s), v = G.fls();
        T cl[10] = {G.And(G.And(e1, G.Not(m0)), G.Not(q)), G.And(G.And(e1, G.Not(m0)), q), G.And(s, G.And(e1, m0)), G.And(s, nm), G.And(s, G.And(e0, G.Not(m0))), G.And(s, G.And(e0, m0)), G.And(ns, G.And(e0, m0)), G.And(ns, G.And(e0, G.Not(m0))), G.And(ns, nm), G.And(ns, G.And(e1, m0))};
        for (int k = 0; k < 10; k++) if (imm >> k & 1) v = G.Or(v, cl[k]); r.push_back(v); }
      return true; }
    case Intrinsic::vector_reduce_add: { T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) s = G.add(s, a[0][i]); r = {s}; return true; }
    case Intrinsic::vector_reduce_mul: { T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) s = G.mul(s, a[0][i]); r = {s}; return true; }
    case Intrinsic::vector_reduce_and: { T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) s = G.And(s, a[0][i]); r = {s}; return true; }
    case Intrinsic::vector_reduce_or: { T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) s = G.Or(s, a[0][i]); r = {s}; return true; }
    case Intrinsic::vector_reduce_xor: { T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) s = G.Xor(s, a[0][i]); r = {s}; return true; }
    case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: {
      T s = a[0][0]; for (unsigned i = 1; i < a[0].size(); i++) { T x = a[0][i]; T c = id == Intrinsic::vector_reduce_smin ? G.slt(x, s) : id == Intrinsic::vector_reduce_smax ? G.slt(s, x) : id == Intrinsic::vector_reduce_umin ? G.ult(x, s) : G.ult(s, x); s = G.ite(c, x, s); } r = {s}; return true; }
    case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: case Intrinsic::vector_reduce_fmin: case Intrinsic::vector_reduce_fmax: {
      // reassociable float reduction: the hardware sequence chosen by the compiler is a halving tree
      bool st = id == Intrinsic::vector_reduce_fadd || id == Intrinsic::vector_reduce_fmul; std::vector<T> v(a[st ? 1 : 0].begin(), a[st ? 1 : 0].end());
      while (v.size() > 1) { size_t h = v.size() / 2; std::vector<T> q; for (size_t i = 0; i < h; i++) { T x = v[i], y = v[i + h]; q.push_back(id == Intrinsic::vector_reduce_fadd ? G.fop(O_FADD, G.W(x), {x, y}) : id == Intrinsic::vector_reduce_fmul ? G.fop(O_FMUL, G.W(x), {x, y}) : G.ite(fcmp(id == Intrinsic::vector_reduce_fmin ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, x, y), x, y)); } v = q; }
      r = {v[0]}; return true; }
    case Intrinsic::masked_load: { // ptr, align, mask, passthru
      unsigned w = leafWidth(rt->getScalarType()), nb = w / 8; T pc0 = S.pc; for (unsigned i = 0; i < a[2].size(); i++) { T m = a[2][i]; if (G.isFalse(m)) { r.push_back(a[3][i]); continue; } S.pc = G.And(pc0, m); if (G.isFalse(S.pc)) { r.push_back(a[3][i]); continue; } T v = loadBytes(S, G.add(a[0][0], G.k(i * nb, 64)), nb, "masked_load"); r.push_back(G.ite(m, v, a[3][i])); } S.pc = pc0; return true; }
    case Intrinsic::masked_store: { // val, ptr, align, mask
      unsigned nb = G.W(a[0][0]) / 8; T pc0 = S.pc; for (unsigned i = 0; i < a[3].size(); i++) { T m = a[3][i]; if (G.isFalse(m)) continue; S.pc = G.And(pc0, m); if (G.isFalse(S.pc)) continue; T ad = G.add(a[1][0], G.k(i * nb, 64)); T old = a[0][i]; if (!G.isTrue(m)) { size_t keep = obls.size(); old = loadBytes(S, ad, nb, "masked_store"); obls.resize(keep); } storeBytesIf(S, m, ad, a[0][i], old, nb); } S.pc = pc0; return true; }
    case Intrinsic::masked_gather: { unsigned w = leafWidth(rt->getScalarType()), nb = w / 8; T pc0 = S.pc; for (unsigned i = 0; i < a[0].size(); i++) { T m = a[2][i]; if (G.isFalse(m)) { r.push_back(a[3][i]); continue; } S.pc = G.And(pc0, m); r.push_back(G.ite(m, loadBytes(S, a[0][i], nb, "gather"), a[3][i])); } S.pc = pc0; return true; }
    case Intrinsic::masked_expandload: case Intrinsic::masked_compressstore: {
      T pc0 = S.pc;
      if (id == Intrinsic::masked_expandload) { unsigned nb = leafWidth(rt->getScalarType()) / 8; T base = a[0][0]; Thermo th(std::vector<T>(a[1].begin(), a[1].end()), a[1].size());
        for (unsigned i = 0; i < a[1].size(); i++) { T v = a[2][i]; for (unsigned j = i + 1; j-- > 0;) { T g = G.And(th.m[i], th.exact(i, j)); if (G.isFalse(g)) continue; S.pc = G.And(pc0, g); v = G.ite(g, loadBytes(S, G.add(base, G.k(j * nb, 64)), nb, "expandload"), v); } r.push_back(v); } }
      else { // compressstore(val, ptr, mask): compute compacted vector then guarded prefix stores
        unsigned N = a[0].size(), w = G.W(a[0][0]), nb = w / 8; Thermo th(std::vector<T>(a[2].begin(), a[2].end()), N); std::vector<T> lst; for (unsigned j = 0; j < N; j++) lst.push_back(th.compacted(a[0], j, G.k(0, w)));
        for (unsigned j = 0; j < N; j++) { T g = th.atLeast(N, j + 1); if (G.isFalse(g)) continue; S.pc = G.And(pc0, g); T ad = G.add(a[1][0], G.k(j * nb, 64)); T old = lst[j]; if (!G.isTrue(g)) { size_t keep = obls.size(); old = loadBytes(S, ad, nb, "cs"); obls.resize(keep); } storeBytesIf(S, g, ad, lst[j], old, nb); } }
      S.pc = pc0; return true; }
    case Intrinsic::vector_insert: { r = a[0]; unsigned o = (unsigned)G.C(a[2][0]); for (unsigned i = 0; i < a[1].size(); i++) r[o + i] = a[1][i]; return true; }
    case Intrinsic::vector_extract: { unsigned o = (unsigned)G.C(a[1][0]), n = leaves(rt); r = Val(a[0].begin() + o, a[0].begin() + o + n); return true; }
    case Intrinsic::stacksave: r = {G.k(0, 64)}; return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::ptrmask: r = {G.And(a[0][0], a[1][0])}; return true;
    case Intrinsic::convert_from_fp16: case Intrinsic::convert_to_fp16: throw Unsupported("fp16 intrinsic");
    case Intrinsic::eh_typeid_for: r = {G.k(0, 32)}; return true;
    default: break;
  }
  (void)bfl;
  if (hasName(name, "llvm.x86.")) {
    r.clear();
    if (x86(*this, S, CI, name, a, r)) { usedModels.insert(name.substr(5)); if (!rt->isVoidTy() && r.size() != leaves(rt)) throw Unsupported("model arity " + name); return true; }
    throw Unsupported("no model for " + name);
  }
  handled = false; return true;
}
void Exec::memsetSym(State& S, T p, T v, T n) {
  v = G.trunc(v, 8);
  if (G.isC(n)) {
    uint64_t N = (uint64_t)G.C(n); if (N > (1u << 20)) throw Unsupported("huge memset");
    std::vector<std::pair<T, std::pair<int, T>>> td; decompose(p, td, G.tru(), S); unsigned step = 8; for (auto& e : td) { int id = e.second.first; if (id >= 0 && S.mem.count(id) && S.mem[id]->region) step = S.mem[id]->es; }
    for (uint64_t i = 0; i < N; i += step) { unsigned k = std::min<uint64_t>(step, N - i); std::vector<T> b(k, v); storeBytes(S, G.add(p, G.k(i, 64)), G.concat(b), k, "memset"); }
    return;
  }
  throw Unsupported("memset with symbolic length");
}
// ------------------------------------------------------------------ inline asm
static bool asmCall(Exec& E, const CallBase* CI, Args& a, Val& r) {
  auto* ia = cast<InlineAsm>(CI->getCalledOperand()); std::string s = ia->getAsmString();
  size_t p = s.find_first_not_of(" \t\n"); 
  if (p == std::string::npos) { // empty: a compiler barrier or value barrier ("+r")
    if (!CI->getType()->isVoidTy()) { r = a.size() ? a[0] : Val(); if (r.size() != E.leaves(CI->getType())) { r.clear(); for (auto& x : a) r.append(x.begin(), x.end()); if (r.size() != E.leaves(CI->getType())) throw Unsupported("empty asm arity"); } }
    return true; }
  std::string mn = s.substr(p, s.find_first_of(" \t", p) - p);
  Type* rt = CI->getType(); unsigned rn = 0, rw = 0; if (!rt->isVoidTy() && !rt->isStructTy()) { rn = E.leaves(rt); rw = E.leafWidth(rt->getScalarType()); }
  if (mn.size() && mn[0] == '%') mn = mn.substr(1);
  if (mn[0] == 'v') mn = mn.substr(1);
  E.usedModels.insert("asm:" + mn);
  // input vector may be typed as ints; reinterpret according to mnemonic
  auto re = [&](const Val& v, unsigned w) { Val o; unsigned sw = G.W(v[0]); if (sw == w) return v; unsigned tot = sw * v.size(); for (unsigned b = 0; b < tot; b += w) { if (w < sw) o.push_back(G.extract(v[b / sw], b % sw, w)); else { std::vector<T> q; for (unsigned k = 0; k < w / sw; k++) q.push_back(v[b / sw + k]); o.push_back(G.concat(q)); } } return o; };
  auto back = [&](std::vector<T> v, unsigned w) { Val o; for (T x : v) o.push_back(x); o = re(o, rw); while (o.size() < rn) o.push_back(G.k(0, rw)); o.resize(rn); r = o; (void)w; return true; };
  struct { const char* n; unsigned sw, dw; bool uns, tr; } C[] = {{"cvttps2dq", 32, 32, 0, 1}, {"cvttpd2dq", 64, 32, 0, 1}, {"cvttpd2udq", 64, 32, 1, 1}, {"cvttps2udq", 32, 32, 1, 1}, {"cvttps2qq", 32, 64, 0, 1}, {"cvttps2uqq", 32, 64, 1, 1}, {"cvttpd2qq", 64, 64, 0, 1}, {"cvttpd2uqq", 64, 64, 1, 1}, {"cvtps2dq", 32, 32, 0, 0}, {"cvtpd2dq", 64, 32, 0, 0}, {"cvtpd2qq", 64, 64, 0, 0}, {"cvtps2qq", 32, 64, 0, 0}, {"cvttph2w", 16, 16, 0, 1}, {"cvttph2uw", 16, 16, 1, 1}, {"cvtph2w", 16, 16, 0, 0}};
  for (auto& c : C) if (mn == c.n || mn == std::string(c.n) + "x" || mn == std::string(c.n) + "y") {
    Val in = re(a[0], c.sw); std::vector<T> o; unsigned maxo = rn * rw / c.dw;
    for (unsigned i = 0; i < in.size() && o.size() < maxo; i++) { T x = in[i]; if (!c.tr) x = G.fop(O_FRINT, c.sw, {x}, 0); o.push_back(c.uns ? cvttu(E, x, c.dw) : cvtt(E, x, c.dw)); }
    while (o.size() < maxo) o.push_back(G.k(0, c.dw));
    return back(o, c.dw);
  }
  struct { const char* n; unsigned sw, dw; bool tr; } Sc[] = {{"cvttss2si", 32, 0, 1}, {"cvttsd2si", 64, 0, 1}, {"cvtss2si", 32, 0, 0}, {"cvtsd2si", 64, 0, 0}, {"cvttss2siq", 32, 64, 1}, {"cvttsd2siq", 64, 64, 1}, {"cvtsd2siq", 64, 64, 0}};
  for (auto& c : Sc) if (mn == c.n) { Val in = re(a[0], c.sw); T x = in[0]; if (!c.tr) x = G.fop(O_FRINT, c.sw, {x}, 0); r = {cvtt(E, x, rw)}; return true; }
  throw Unsupported("inline asm: " + s);
}
// ------------------------------------------------------------------ calls
bool Exec::execCall(const CallBase* CI, Frame& f, State& S) {
  Args a; Val r;
  auto done = [&](bool alive = true) { if (alive && !CI->getType()->isVoidTy()) { if (r.size() != leaves(CI->getType())) { std::string s; raw_string_ostream os(s); CI->print(os); throw Unsupported("result arity: " + s); } f.regs[CI] = r; } return alive; };
  if (auto* ii = dyn_cast<DbgInfoIntrinsic>(CI)) { (void)ii; return ALIVE; }
  for (unsigned i = 0; i < CI->arg_size(); i++) {
    Val v = get(CI->getArgOperand(i), f, S);
    if (CI->isByValArgument(i)) { Type* bt = CI->getParamByValType(i); int id = newObj(S, DL->getTypeAllocSize(bt).getFixedValue(), 32, "byval"); memcpySym(S, S.mem[id]->base, v[0], G.k(DL->getTypeAllocSize(bt).getFixedValue(), 64), true); f.allocas.push_back(id); v = {S.mem[id]->base}; }
    a.push_back(v);
  }
  if (CI->isInlineAsm()) { asmCall(*this, CI, a, r); return done(); }
  const Function* F = CI->getCalledFunction();
  if (!F) if (auto* al = dyn_cast<GlobalAlias>(CI->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(al->getAliaseeObject());
  if (!F) F = dyn_cast<Function>(CI->getCalledOperand()->stripPointerCasts());
  if (!F) {
    T p = get1(CI->getCalledOperand(), f, S); std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(p, tg, G.tru(), S);
    if (tg.size() != 1 || tg[0].second.first < 0 || !objFn.count(tg[0].second.first)) throw Unsupported("indirect call to unknown target " + G.str(p));
    F = objFn[tg[0].second.first];
  }
  std::string name = F->getName().str();
  if (F->isIntrinsic()) { bool h = false; bool al = execIntrinsic(CI, F->getName(), a, f, S, r, h); if (!h) throw Unsupported("intrinsic " + name); return done(al); }
  if (hasName(name, "vp_")) { bool al = apiCall(name, a, f, S, r); return done(al); }
  if (!replace.empty()) {
    const std::string& d = dem(name);
    for (auto& kv : replace) if (d.find(kv.first) != std::string::npos && kv.second != F) { F = kv.second; break; }
  }
  if (F->isDeclaration()) { bool al = externCall(F, name, a, CI, f, S, r); return done(al); }
  if (F->arg_size() > a.size()) throw Unsupported("argument count for " + name);
  bool al = call(F, a, S, r);
  if (al && r.size() != leaves(CI->getType()) && CI->getType()->isVoidTy()) r.clear();
  return done(al);
}
bool Exec::externCall(const Function* F, const std::string& name, Args& a, const CallBase* CI, Frame& f, State& S, Val& r) {
  Type* rt = CI->getType();
  auto is = [&](const char* n) { return name == n; };
  if (is("abort") || is("__assert_fail") || is("_ZSt9terminatev") || hasName(name, "_ZSt") && name.find("__throw") != std::string::npos || is("__cxa_pure_virtual") || is("exit") || is("_exit") || hasName(name, "_ZN3hwy5AbortE")) {
    std::string w = hasName(name, "_ZN3hwy5Abort") ? "hwy::Abort (assertion failure)" : name; 
    if (hasName(name, "_ZN3hwy5Abort") && a.size() > 1 && G.isC(a[1][0])) w += sfmt(" line %u", (unsigned)G.C(a[1][0]));
    oblig(S, G.fls(), "not reached: " + w); return false; }
  if (hasName(name, "_ZN3hwy4WarnE")) return true;
  if (is("memcpy") || is("memmove")) { memcpySym(S, a[0][0], a[1][0], a[2][0], G.isC(a[2][0])); r = a[0]; return true; }
  if (is("memset")) { memsetSym(S, a[0][0], a[1][0], a[2][0]); r = a[0]; return true; }
  if (is("memcmp") || is("bcmp")) { if (!G.isC(a[2][0])) throw Unsupported("memcmp len"); uint64_t n = (uint64_t)G.C(a[2][0]); T v = G.k(0, 32); for (uint64_t i = n; i-- > 0;) { T x = loadBytes(S, G.add(a[0][0], G.k(i, 64)), 1, "memcmp"), y = loadBytes(S, G.add(a[1][0], G.k(i, 64)), 1, "memcmp"); v = G.ite(G.eq(x, y), v, G.ite(G.ult(x, y), G.k(~(u128)0, 32), G.k(1, 32))); } r = {v}; return true; }
  if (is("strlen")) { r = {G.k(readStr(S, a[0][0]).size(), 64)}; return true; }
  if (is("malloc") || is("_Znwm") || is("_Znam") || is("_ZnwmSt11align_val_t")) {
    T n = a[0][0]; 
    if (!G.isC(n)) throw Unsupported("malloc with symbolic size");
    int id = newObj(S, (uint64_t)G.C(n), 4096, "heap"); S.mem[id]->heap = true; r = {S.mem[id]->base}; return true; }
  if (is("free") || hasName(name, "_ZdlPv") || hasName(name, "_ZdaPv")) { T p = a[0][0]; if (G.isC(p, 0)) return true; std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(p, tg, G.tru(), S); for (auto& e : tg) { int id = e.second.first; if (id < 0 || !S.mem.count(id)) { T z = G.eq(p, G.k(0, 64)); oblig(S, G.Or(G.Not(e.first), z), "free of a live heap pointer"); continue; } oblig(S, G.Or(G.Not(e.first), G.And(G.eq(e.second.second, G.k(0, 64)), S.mem[id]->heap && !S.mem[id]->freed ? G.tru() : G.fls())), "free of a live heap pointer"); S.wr(id)->freed = true; } return true; }
  if (is("__cxa_guard_acquire")) { r = {G.k(1, 32)}; return true; }
  if (is("__cxa_guard_release") || is("__cxa_atexit") || is("__gxx_personality_v0")) { if (!rt->isVoidTy()) r = {G.k(0, leafWidth(rt))}; return true; }
  struct { const char* n; Op o; unsigned c; } fl[] = {{"floor", O_FRINT, 1}, {"ceil", O_FRINT, 2}, {"trunc", O_FRINT, 3}, {"rint", O_FRINT, 0}, {"nearbyint", O_FRINT, 0}, {"roundeven", O_FRINT, 0}, {"round", O_FRINT, 4}, {"sqrt", O_FSQRT, 0}};
  for (auto& q : fl) if (is(q.n) || name == std::string(q.n) + "f") { r = {G.fop(q.o, G.W(a[0][0]), {a[0][0]}, q.c)}; return true; }
  if (is("fma") || is("fmaf")) { r = {G.fop(O_FMA, G.W(a[0][0]), {a[0][0], a[1][0], a[2][0]})}; return true; }
  if (is("fmod") || is("fmodf")) { r = {G.fop(O_FREM, G.W(a[0][0]), {a[0][0], a[1][0]})}; return true; }
  if (is("lrintf") || is("lrint")) { r = {cvtr(*this, a[0][0], 64)}; return true; }
  if (is("__extendhfsf2")) { r = {G.fop(O_FPEXT, 32, {a[0][0]})}; return true; }
  if (is("__truncsfhf2")) { r = {G.fop(O_FPTRUNC, 16, {a[0][0]})}; return true; }
  throw Unsupported("external function " + llvm::demangle(name));
}
bool Exec::apiCall(const std::string& name, Args& a, Frame& f, State& S, Val& r) {
  auto is = [&](const char* n) { return name == n; };
  auto fnOf = [&](T p) -> const Function* { std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(p, tg, G.tru(), S); if (tg.size() != 1 || !objFn.count(tg[0].second.first)) throw Unsupported("vp: function pointer expected"); return objFn[tg[0].second.first]; };
  if (is("vp_entry")) { entries.push_back({readStr(S, a[0][0]), fnOf(a[1][0])}); return true; }
  if (is("vp_sym")) { // ptr, bytes, es, name
    uint64_t n = (uint64_t)G.C(a[1][0]); unsigned es = (unsigned)G.C(a[2][0]); InputRec rec; rec.es = es; rec.name = readStr(S, a[3][0]); unsigned ix = inputs.size();
    for (uint64_t i = 0; i < n / es; i++) { T v; if (concrete) v = G.k(vp_rand_elem(concreteSeed, ix, i, es), es * 8); else { v = G.var(sfmt("%s.%u[%u]", rec.name.c_str(), ix, (unsigned)i), es * 8, 0, -1, true); } rec.elems.push_back(v); storeBytes(S, G.add(a[0][0], G.k(i * es, 64)), v, es, "vp_sym"); }
    inputs.push_back(rec); return true; }
  if (is("vp_size")) { InputRec rec; rec.es = 8; rec.name = readStr(S, a[0][0]); T v; if (concrete) v = G.urem(G.k(vp_rand_elem(concreteSeed, inputs.size(), 0, 8), 64), G.add(G.k((u128)std::min<uint64_t>((uint64_t)G.C(a[1][0]), 200), 64), G.k(1, 64))); else v = G.var(sfmt("%s.%u", rec.name.c_str(), (unsigned)inputs.size()), 64, 0, -1, true); rec.elems.push_back(v); inputs.push_back(rec); S.pc = G.And(S.pc, G.ule(v, a[1][0])); r = {v}; return true; }
  if (is("vp_assume")) { T c = G.ne(a[0][0], G.k(0, G.W(a[0][0]))); S.pc = G.And(S.pc, c); return !G.isFalse(S.pc); }
  if (is("vp_check")) { std::string l = readStr(S, a[1][0]); T c = G.ne(a[0][0], G.k(0, G.W(a[0][0]))); if (concrete) outLog.push_back(sfmt("C %s %d", l.c_str(), G.isTrue(c) ? 1 : G.isFalse(c) ? 0 : -1)); oblig(S, c, l); return true; }
  if (is("vp_eq")) { uint64_t n = (uint64_t)G.C(a[2][0]); unsigned es = (unsigned)G.C(a[3][0]); std::string l = readStr(S, a[4][0]);
    for (uint64_t i = 0; i < n; i++) { T x = loadBytes(S, G.add(a[0][0], G.k(i * es, 64)), es, "vp_eq"), y = loadBytes(S, G.add(a[1][0], G.k(i * es, 64)), es, "vp_eq");
      if (concrete) outLog.push_back(sfmt("E %s[%u] %s", l.c_str(), (unsigned)i, G.isC(x) ? sfmt("%llx%016llx", (unsigned long long)(G.C(x) >> 64), (unsigned long long)G.C(x)).c_str() : ("?" + G.str(x, 3)).c_str()));
      oblig(S, G.eq(x, y), l + sfmt("[%u]", (unsigned)i)); }
    return true; }
  if (is("vp_feq")) { // float equality modulo NaN payload: same bits, or both NaN
    uint64_t n = (uint64_t)G.C(a[2][0]); unsigned es = (unsigned)G.C(a[3][0]); std::string l = readStr(S, a[4][0]);
    for (uint64_t i = 0; i < n; i++) { T x = loadBytes(S, G.add(a[0][0], G.k(i * es, 64)), es, "vp_eq"), y = loadBytes(S, G.add(a[1][0], G.k(i * es, 64)), es, "vp_eq");
      if (concrete) outLog.push_back(sfmt("E %s[%u] %s", l.c_str(), (unsigned)i, G.isC(x) ? (G.isTrue(isNaN(x)) ? "nan" : sfmt("%llx%016llx", 0ull, (unsigned long long)G.C(x)).c_str()) : ("?" + G.str(x, 3)).c_str()));
      oblig(S, G.Or(G.eq(x, y), G.And(isNaN(x), isNaN(y))), l + sfmt("[%u]", (unsigned)i)); }
    return true; }
  if (is("vp_region")) { // es, count, name -> ptr
    unsigned es = (unsigned)G.C(a[0][0]); T cnt = a[1][0]; std::string nm = readStr(S, a[2][0]); int id = nextObj++; auto o = std::make_shared<Obj>(); o->name = nm; o->region = true; o->es = es; o->sizeT = G.mulc(cnt, es); unsigned ab = 0; while ((1u << ab) < es) ab++;
    o->base = G.var("&" + nm, 64, std::max(ab, 6u), id); o->uf = G.newUF(nm); o->regionId = regions.size(); S.mem[id] = o; objName[id] = nm; regions.push_back({id, es, cnt, o->uf, nm, 0}); r = {o->base}; return true; }
  if (is("vp_snapshot")) { std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(a[0][0], tg, G.tru(), S); if (tg.size() != 1 || !S.mem.count(tg[0].second.first) || !S.mem[tg[0].second.first]->region) throw Unsupported("vp_snapshot");
    int id = nextObj++; auto o = std::make_shared<Obj>(*S.mem[tg[0].second.first]); o->name += "@0"; o->base = G.var("&" + o->name, 64, 6, id); S.mem[id] = o; objName[id] = o->name; r = {G.add(o->base, tg[0].second.second)}; return true; }
  if (is("vp_replace")) { replace[readStr(S, a[0][0])] = fnOf(a[1][0]); return true; }
  if (is("vp_cut")) { cutFns.push_back(readStr(S, a[0][0])); return true; }
  if (is("vp_inv1") || is("vp_inv2") || is("vp_invE") || is("vp_inv0") || is("vp_def1")) { InvCand c; c.F = fnOf(a[0][0]); c.kind = is("vp_def1") ? 5 : is("vp_inv1") ? 1 : is("vp_inv2") ? 2 : is("vp_invE") ? 3 : 4; c.label = readStr(S, a[1][0]); if (a.size() > 2) c.fn = readStr(S, a[2][0]); cands.push_back(c); return true; }
  if (is("vp_split")) { unsigned es = (unsigned)G.C(a[2][0]); uint64_t n = (uint64_t)G.C(a[1][0]); for (uint64_t i = 0; i < n && !concrete; i++) { T x = loadBytes(S, G.add(a[0][0], G.k(i * es, 64)), es, "vp_split"); if (G.op(x) == O_VAR) gSplits[(uint32_t)G.n[x].c] = SplitHint{(int)G.C(a[3][0]), (uint64_t)G.C(a[4][0])}; } return true; }
  if (is("vp_nsw")) { checkNSW = !G.isC(a[0][0], 0); return true; }
  if (is("vp_dead")) { S.pc = G.fls(); return false; }
  if (is("vp_havoc")) { uint64_t n = (uint64_t)G.C(a[1][0]); unsigned es = (unsigned)G.C(a[2][0]); for (uint64_t i = 0; i < n; i += es) storeBytes(S, G.add(a[0][0], G.k(i, 64)), G.var(sfmt("havoc%u", undefCount++), es * 8), es, "havoc"); return true; }
  if (is("vp_havoc_region")) { // forget the contents of a region
    std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(a[0][0], tg, G.tru(), S); if (tg.size() != 1 || !S.mem.count(tg[0].second.first) || !S.mem[tg[0].second.first]->region) throw Unsupported("vp_havoc_region"); Obj* o = S.wr(tg[0].second.first); o->uf = G.newUF(o->name + "'"); o->log.clear(); o->mc = 0; o->ma = o->mb = nullptr; return true; }
  if (is("vp_pure")) { // value of an uninterpreted function (name, es, x)
    static std::map<std::string, unsigned> ids; std::string k = readStr(S, a[0][0]); if (!ids.count(k)) ids[k] = G.newUF(k); r = {G.uf(ids[k], 64, {a[1][0]})}; return true; }
  if (is("vp_pure2")) { static std::map<std::string, unsigned> ids; std::string k = readStr(S, a[0][0]); if (!ids.count(k)) ids[k] = G.newUF(k); r = {G.uf(ids[k], 64, {a[1][0], a[2][0]})}; return true; }
  if (is("vp_native")) { r = {G.k(0, 32)}; return true; }
  throw Unsupported("unknown vp api " + name);
}
// ------------------------------------------------------------------ loop cutting
T Exec::evalPred(const Function* F, const std::vector<T>& args, State& S0) {
  State S = S0; Args a; for (T t : args) a.push_back({t}); Val r; size_t keep = obls.size(); std::vector<std::string> cf; cf.swap(cutFns); unsigned d = depth;
  auto hook = onRegionRead; onRegionRead = nullptr;
  bool al = call(F, a, S, r); depth = d; cf.swap(cutFns); obls.resize(keep); onRegionRead = hook;
  if (!al) return G.tru();
  T v = r[0]; return G.W(v) == 1 ? v : G.ne(v, G.k(0, G.W(v)));
}
T Exec::cutX(CutInfo& ct, T v, State& S, bool& ok) {
  ok = true; if (G.W(v) < 64) return G.zext(v, 64);
  std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(v, tg, G.tru(), S);
  if (tg.size() == 1 && tg[0].second.first >= 0 && S.mem.count(tg[0].second.first)) { Obj* o = S.mem[tg[0].second.first].get(); if (o->region) { unsigned s = 0; while ((1u << s) < o->es) s++; return G.lshr(tg[0].second.second, G.k(s, 64)); } ok = false; }
  for (auto& e : tg) if (e.second.first >= 0) ok = false;
  return v;
}
void Exec::backEdge(CutInfo& ct, Frame& f, State& S) {
  // values of loop variables at the back edge; phis of H have been set by enterBlock
  std::vector<T> vals; for (auto& v : ct.vars) vals.push_back(v.phi ? f.regs[v.phi][v.leaf] : objRead(S, v.obj, v.off, v.n));
  ct.backStates.push_back(S); ct.backVals.push_back(vals);
  if (!ct.checkInv) return;
  if (!ct.trial) for (size_t i = 0; i < vals.size(); i++) if (ct.vars[i].ptrBase && !ct.vars[i].affine && ct.vars[i].pes > 1) { unsigned s = 0; while ((1u << s) < ct.vars[i].pes) s++; obls.push_back({S.pc, G.eq(G.trunc(G.sub(vals[i], ct.vars[i].ptrBase), s), G.k(0, s)), "loop pointer stays aligned to its array"}); }
  T defs = G.tru(); for (auto& in : ct.insts) { InvCand& c = cands[in[0]]; if (c.kind != 5) continue; bool k; defs = G.And(defs, evalPred(c.F, {cutX(ct, vals[in[1]], S, k)}, S)); }
  for (size_t q = 0; q < ct.insts.size(); q++) { if (!ct.keep[q]) continue; auto& in = ct.insts[q]; InvCand& c = cands[in[0]]; if (c.kind == 5) continue; std::vector<T> args; bool ok = true;
    if (c.kind == 3) args.push_back(G.var(sfmt("idx!%s", c.label.c_str()), 64));
    for (size_t j = 1; j < in.size(); j++) { bool k; args.push_back(cutX(ct, vals[in[j]], S, k)); ok &= k; }
    T g = ok ? evalPred(c.F, args, S) : G.fls();
    std::string lab = "loop invariant preserved: " + c.label; Obligation ob{G.And(S.pc, defs), g, lab}; 
    if (c.kind == 3) { // hypothesis instance at the same index
      std::vector<T> ha{args[0]}; for (size_t j = 1; j < in.size(); j++) { bool k; ha.push_back(cutX(ct, ct.vars[in[j]].cur, ct.head, k)); }
      // all kept elementwise candidates are assumed at this index
      T hyp = G.tru(); for (size_t p = 0; p < ct.insts.size(); p++) { if (!ct.keep[p]) continue; auto& ip = ct.insts[p]; InvCand& cp = cands[ip[0]]; if (cp.kind != 3) continue; std::vector<T> pa{args[0]}; for (size_t j = 1; j < ip.size(); j++) { bool k; pa.push_back(cutX(ct, ct.vars[ip[j]].cur, ct.head, k)); } hyp = G.And(hyp, evalPred(cp.F, pa, ct.head)); }
      ob.pc = G.And(ob.pc, hyp); }
    if (ct.trial) { ct.indObls.push_back(ob); ct.indIdx.push_back(q); } else obls.push_back(ob);
  }
}
void Exec::cutLoop(const BasicBlock* H, Frame& f, State& S, Loop* L) {
  // 0. does the loop have a concrete trip? probe the first iteration for a symbolic exit condition
  bool symbolicExit = false;
  {
    Frame pf = f; State ps = S; size_t keep = obls.size(); auto cf = cutFns; cutFns.clear();
    const BasicBlock* bb = H; unsigned guard = 0; 
    try {
      for (;;) {
        if (++guard > 2000) break;
        if (!execBlockBody(bb, pf, ps)) break;
        const Instruction* t = bb->getTerminator();
        auto* br = dyn_cast<BranchInst>(t); if (!br) { symbolicExit = !isa<ReturnInst>(t) && !isa<UnreachableInst>(t); break; }
        const BasicBlock* nx;
        if (br->isUnconditional()) nx = br->getSuccessor(0);
        else {
          T c = get1(br->getCondition(), pf, ps); if (!G.isC(c)) { if (G.isFalse(G.And(ps.pc, c))) c = G.fls(); else if (G.isFalse(G.And(ps.pc, G.Not(c)))) c = G.tru(); }
          bool exits = !L->contains(br->getSuccessor(0)) || !L->contains(br->getSuccessor(1));
          if (!G.isC(c)) { symbolicExit = true; (void)exits; break; }
          nx = br->getSuccessor(G.C(c) ? 0 : 1);
        }
        if (!L->contains(nx)) break;
        enterBlock(bb, nx, pf, ps); bb = nx;
      }
    } catch (Unsupported&) { symbolicExit = true; }
    obls.resize(keep); cutFns = cf;
  }
  if (!symbolicExit) return;
  auto ct = std::make_shared<CutInfo>(); ct->H = H; ct->L = L; ct->headPc = S.pc; loopsCut++;
  State entry = S; Frame entryF = f;
  for (auto& I : *H) { auto* phi = dyn_cast<PHINode>(&I); if (!phi) break; Val& v = f.regs[phi]; for (unsigned i = 0; i < v.size(); i++) ct->vars.push_back({phi, i, -1, 0, 0, v[i], 0, false, 0}); }
  unsigned tag = undefCount++;
  // 1. fix-point of what the loop modifies
  ct->k = G.var(sfmt("iter!%u", tag), 64);
  auto setup = [&](Frame& F, State& St) { // havoc
    St = entry; F = entryF;
    for (int id : ct->modRegions) { Obj* o = St.wr(id); static std::map<std::pair<unsigned, int>, unsigned> ufs; auto key = std::make_pair(tag, id); if (!ufs.count(key)) ufs[key] = G.newUF(o->name + sfmt("@loop%u", tag)); o->uf = ufs[key]; o->log.clear(); o->mc = 0; o->ma = o->mb = nullptr; }
    unsigned i = 0;
    for (auto& v : ct->vars) { unsigned w = G.W(v.init); if (v.affine) v.cur = G.add(v.init, G.mulc(G.trunc(ct->k, w), v.step)); else if (!v.pbDone) { v.pbDone = true; if (w == 64) { std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(v.init, tg, G.tru(), entry); if (tg.size() == 1 && tg[0].second.first >= 0 && entry.mem.count(tg[0].second.first)) { Obj* o = entry.mem[tg[0].second.first].get(); v.ptrBase = G.sub(v.init, tg[0].second.second); v.pes = o->region ? o->es : 1; } } }
      if (v.affine) {} else if (v.ptrBase) v.cur = G.add(v.ptrBase, G.mulc(G.var(sfmt("loop!%u.%u", tag, i), 64), v.pes)); else v.cur = G.var(sfmt("loop!%u.%u", tag, i), w); i++;
      if (v.phi) { F.regs[v.phi][v.leaf] = v.cur; } else objWrite(St, v.obj, v.off, v.cur, v.n); }
    ct->head = St; F.cuts = entryF.cuts; F.cuts.push_back(ct);
  };
  auto trial = [&]() { ct->trial = true; ct->backStates.clear(); ct->backVals.clear(); ct->indObls.clear(); ct->indIdx.clear(); Frame F; State St; setup(F, St);
    for (size_t q = 0; q < ct->insts.size(); q++) if (ct->keep[q]) { auto& in = ct->insts[q]; InvCand& c = cands[in[0]]; if (c.kind == 3) continue; std::vector<T> args; for (size_t j = 1; j < in.size(); j++) { bool k; args.push_back(cutX(*ct, ct->vars[in[j]].cur, St, k)); } St.pc = G.And(St.pc, evalPred(c.F, args, St)); }
    size_t keep = obls.size(); auto hook = onRegionRead; installHook(*ct); 
    runRegion(H, nullptr, F, St);
    onRegionRead = hook; std::vector<Obligation> os(obls.begin() + keep, obls.end()); obls.resize(keep); };
  // pointer variables: a pointer loop variable must keep its base object; represent as base+offset
  for (auto& v : ct->vars) v.affine = true; // optimistic: step computed below
  // first trial with plain havoc to discover steps
  for (auto& v : ct->vars) v.affine = false;
  for (int round = 0; round < 12; round++) {
    trial(); bool changed = false;
    for (size_t b = 0; b < ct->backStates.size(); b++) {
      State& bs = ct->backStates[b];
      for (auto& kv : bs.mem) { auto it = ct->head.mem.find(kv.first); if (it == ct->head.mem.end() || it->second == kv.second) continue; Obj &o = *kv.second, &h = *it->second;
        if (o.region) { if (!ct->modRegions.count(kv.first) && (o.log.size() != h.log.size() || !o.sameBase(h))) { ct->modRegions.insert(kv.first); changed = true; } continue; }
        for (auto& c : o.ch) { auto hc = h.ch.find(c.first); if (hc != h.ch.end() && hc->second.n == c.second.n && hc->second.t == c.second.t) continue; 
          if (entry.mem.find(kv.first) == entry.mem.end()) continue;
          std::vector<char> cv(c.second.n, 0); uint64_t cov = 0; for (auto& v : ct->vars) if (!v.phi && v.obj == kv.first) for (uint64_t b = std::max<uint64_t>(v.off, c.first); b < std::min<uint64_t>(v.off + v.n, c.first + c.second.n); b++) if (!cv[b - c.first]) { cv[b - c.first] = 1; cov++; }
          if (cov == c.second.n) continue;
          if (cov) { for (uint64_t b = 0; b < c.second.n;) { if (cv[b]) { b++; continue; } uint64_t e = b; while (e < c.second.n && !cv[e]) e++; ct->vars.push_back({nullptr, 0, kv.first, c.first + b, unsigned(e - b), objRead(entry, kv.first, c.first + b, e - b), 0, false, 0}); b = e; } changed = true; continue; }
          // vectors: one loop variable per lane
          if (G.op(c.second.t) == O_CONCAT && c.second.n > 8) { unsigned kw = G.W(G.kid(c.second.t, 0)); bool uni = kw % 8 == 0; for (unsigned j = 0; j < G.n[c.second.t].nk; j++) if (G.W(G.kid(c.second.t, j)) != kw) uni = false;
            if (uni) { for (unsigned b = 0; b < c.second.n; b += kw / 8) ct->vars.push_back({nullptr, 0, kv.first, c.first + b, kw / 8, objRead(entry, kv.first, c.first + b, kw / 8), 0, false, 0}); changed = true; continue; } }
          T init = objRead(entry, kv.first, c.first, c.second.n); ct->vars.push_back({nullptr, 0, kv.first, c.first, c.second.n, init, 0, false, 0}); changed = true; }
      }
    }
    if (changed) continue;
    // a vector whose back-edge value is built from lanes: one loop variable per lane
    for (size_t i = 0; i < ct->vars.size() && !changed; i++) { CutVar v = ct->vars[i]; if (v.phi || v.n < 2 || ct->backVals.empty()) continue; T bv = ct->backVals[0][i]; if (G.op(bv) != O_CONCAT) continue; bool uni = true; std::vector<unsigned> ws; for (unsigned j = 0; j < G.n[bv].nk; j++) { unsigned kw = G.W(G.kid(bv, j)); ws.push_back(kw / 8); if (kw % 8) uni = false; }
      if (!uni) continue;
      ct->vars.erase(ct->vars.begin() + i); unsigned b = 0; for (unsigned kb : ws) { ct->vars.push_back({nullptr, 0, v.obj, v.off + b, kb, objRead(entry, v.obj, v.off + b, kb), 0, false, 0}); b += kb; } changed = true; }
    if (changed) continue;
    // affine detection / pointer bases
    for (size_t i = 0; i < ct->vars.size(); i++) { auto& v = ct->vars[i]; if (v.affine) continue; if (G.W(v.init) < 8) continue; u128 step = 0; bool ok = !ct->backVals.empty(); bool first = true;
      for (auto& bv : ct->backVals) { T d = G.sub(bv[i], v.cur); if (!G.isC(d)) { ok = false; break; } if (first) { step = G.C(d); first = false; } else if (step != G.C(d)) ok = false; }
      if (ok) { v.affine = true; v.step = step; changed = true; } }
    if (!changed) break;
  }
  if (getenv("DV_TRACE")) { fprintf(stderr, "cut %s vars:\n", dem(f.F->getName().str()).substr(0, 60).c_str()); for (size_t i = 0; i < ct->vars.size(); i++) { auto& v = ct->vars[i]; fprintf(stderr, "  %zu %s n=%u affine=%d step=%llu init=%s back=%s\n", i, v.phi ? "phi" : entry.mem[v.obj]->name.c_str(), v.n, (int)v.affine, (unsigned long long)v.step, G.str(v.init).substr(0, 80).c_str(), ct->backVals.empty() ? "-" : G.str(ct->backVals[0][i]).substr(0, 200).c_str()); } }
  // 2. candidate instances
  for (size_t c = 0; c < cands.size(); c++) { auto& cd = cands[c]; if (cd.fn.size() && dem(f.F->getName().str()).find(cd.fn) == std::string::npos) continue;
    std::vector<int> xs; for (size_t i = 0; i < ct->vars.size(); i++) { unsigned w = G.W(ct->vars[i].init); T z = ct->vars[i].init; if (G.op(z) == O_EXTRACT) z = G.kid(z, 0); if (G.op(z) == O_VAR && G.vars[(size_t)G.n[z].c].name.compare(0, 6, "uninit") == 0) continue; /* dead temporaries */ if (w == 64 || w == 32) { bool ok; cutX(*ct, ct->vars[i].init, entry, ok); if (ok) xs.push_back(i); } }
    if (cd.kind == 4) ct->insts.push_back({(int)c});
    else if (cd.kind == 1 || cd.kind == 3 || cd.kind == 5) for (int x : xs) ct->insts.push_back({(int)c, x});
    else for (int x : xs) for (int y : xs) if (x != y) ct->insts.push_back({(int)c, x, y}); }
  ct->keep.assign(ct->insts.size(), 1);
  std::vector<T> defs0; for (auto& in : ct->insts) { InvCand& c = cands[in[0]]; if (c.kind != 5) continue; bool k; defs0.push_back(evalPred(c.F, {cutX(*ct, ct->vars[in[1]].init, entry, k)}, entry)); }
  // initially true?
  for (size_t q = 0; q < ct->insts.size(); q++) { auto& in = ct->insts[q]; InvCand& c = cands[in[0]]; if (c.kind == 5) continue; std::vector<T> args; if (c.kind == 3) args.push_back(G.var(sfmt("idx!%s", c.label.c_str()), 64)); for (size_t j = 1; j < in.size(); j++) { bool k; args.push_back(cutX(*ct, ct->vars[in[j]].init, entry, k)); }
    T g = evalPred(c.F, args, entry); std::vector<T> as = ambient; as.push_back(entry.pc); as.insert(as.end(), defs0.begin(), defs0.end()); gNoAutoSplit = true; bool okq = prove(as, g, 5000, false).v == PROVED; gNoAutoSplit = false; if (!okq) { if (getenv("DV_TRACE")) fprintf(stderr, "not initially: %s(%d)\n", c.label.c_str(), in.size() > 1 ? in[1] : -1); ct->keep[q] = 0; } }
  // 3. Houdini
  ct->checkInv = true;
  for (int round = 0; round < 40; round++) {
    size_t nAmb = ambient.size(); trial(); bool dropped = false; std::vector<char> bad(ct->insts.size(), 0);
    for (size_t i = 0; i < ct->indObls.size(); i++) { int q = ct->indIdx[i]; if (bad[q]) continue; auto& o = ct->indObls[i]; std::vector<T> as = ambient; as.push_back(o.pc); if (prove(as, o.goal, 5000, false).v != PROVED) { bad[q] = 1; dropped = true; } }
    ambient.resize(nAmb); gUseCache = true;
    if (!dropped) break;
    for (size_t q = 0; q < bad.size(); q++) if (bad[q]) { if (getenv("DV_TRACE")) fprintf(stderr, "houdini drops %s(%d)\n", cands[ct->insts[q][0]].label.c_str(), ct->insts[q].size() > 1 ? ct->insts[q][1] : -1); ct->keep[q] = 0; }
  }
  // 4. termination: some variable strictly monotone over the back edge
  bool term = ct->backVals.empty();
  { trial(); for (size_t i = 0; i < ct->vars.size() && !term; i++) { unsigned w = G.W(ct->vars[i].init); if (w != 64 && w != 32) continue; bool up = true, down = true;
      auto off = [&](T v) { std::vector<std::pair<T, std::pair<int, T>>> tg; decompose(v, tg, G.tru(), S); return tg.size() == 1 && tg[0].second.first >= 0 ? tg[0].second.second : v; };
      for (size_t b = 0; b < ct->backVals.size(); b++) { std::vector<T> as = ambient; as.push_back(ct->backStates[b].pc); T o = off(ct->vars[i].cur), n = off(ct->backVals[b][i]); if (up && prove(as, G.ult(o, n), 5000, false).v != PROVED) up = false; if (down && prove(as, G.ult(n, o), 5000, false).v != PROVED) down = false; if (!up && !down) break; }
      if (up || down) term = true; } }
  if (!term) obls.push_back({S.pc, G.fls(), "loop terminates (" + dem(f.F->getName().str()).substr(0, 80) + ")"});
  else { obls.push_back({S.pc, G.tru(), "loop terminates"}); }
  for (size_t q = 0; q < ct->insts.size(); q++) if (ct->keep[q] && cands[ct->insts[q][0]].kind != 5) { loopInvs++; obls.push_back({S.pc, G.tru(), "loop invariant initially: " + cands[ct->insts[q][0]].label}); }
  // 5. real run from the generalised head
  setup(f, S); ct->trial = false; ct->backStates.clear(); ct->backVals.clear();
  for (size_t q = 0; q < ct->insts.size(); q++) if (ct->keep[q]) { auto& in = ct->insts[q]; InvCand& c = cands[in[0]]; if (c.kind == 3) continue; std::vector<T> args; for (size_t j = 1; j < in.size(); j++) { bool k; args.push_back(cutX(*ct, ct->vars[in[j]].cur, S, k)); } S.pc = G.And(S.pc, evalPred(c.F, args, S)); }
  installHook(*ct); f.cuts.clear(); f.cuts = entryF.cuts; f.cuts.push_back(ct);
}
void Exec::installHook(CutInfo& ct) {
  // every read of a region havocked by this loop instantiates the elementwise invariants at the index read
  auto prev = onRegionRead; CutInfo snap = ct; auto sp = std::make_shared<CutInfo>(std::move(snap)); 
  onRegionRead = [this, prev, sp](T off, int id) {
    if (prev) prev(off, id);
    if (!sp->modRegions.count(id) && !sp->modRegions.empty()) return;
    unsigned s = 0; unsigned es = sp->head.mem[id]->es; while ((1u << s) < es) s++; T idx = G.lshr(off, G.k(s, 64));
    for (size_t q = 0; q < sp->insts.size(); q++) if (sp->keep[q]) { auto& in = sp->insts[q]; InvCand& c = cands[in[0]]; if (c.kind != 3) continue; std::vector<T> args{idx}; for (size_t j = 1; j < in.size(); j++) { bool k; args.push_back(cutX(*sp, sp->vars[in[j]].cur, sp->head, k)); }
      T g = evalPred(c.F, args, sp->head); g = G.Or(G.Not(sp->headPc), g); if (!G.isTrue(g) && std::find(ambient.begin(), ambient.end(), g) == ambient.end()) ambient.push_back(g); }
  };
}
