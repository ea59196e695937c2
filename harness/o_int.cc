#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class T> static inline T Sat(W<T> x) { return x < W<T>(LimitsMin<T>()) ? LimitsMin<T>() : x > W<T>(LimitsMax<T>()) ? LimitsMax<T>() : static_cast<T>(x); }
template <class T> static inline T MulW(T a, T b) { return static_cast<T>(static_cast<uint64_t>(a) * static_cast<uint64_t>(b)); }
#define BIN(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { const T x = a[i], y = b[i]; (void)y; e[i] = static_cast<T>(SPEC); } Expect(d, CALL, e, #NAME); }
#define UN(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"); Ref<D> e; VP_LANES { const T x = a[i]; e[i] = static_cast<T>(SPEC); } Expect(d, CALL, e, #NAME); }
#define UW(x) (W<T>(x))
BIN(tAdd, Add(a.v, b.v), UW(x) + UW(y))
BIN(tSub, Sub(a.v, b.v), UW(x) - UW(y))
BIN(tOpAdd, (a.v + b.v), UW(x) + UW(y))
BIN(tOpSub, (a.v - b.v), UW(x) - UW(y))
UN(tNeg, Neg(a.v), -UW(x))
UN(tSaturatedNeg, SaturatedNeg(a.v), x == LimitsMin<T>() ? LimitsMax<T>() : -x)
UN(tAbs, Abs(a.v), x < 0 ? -UW(x) : UW(x))
UN(tSaturatedAbs, SaturatedAbs(a.v), x == LimitsMin<T>() ? LimitsMax<T>() : x < 0 ? -x : x)
BIN(tAbsDiff, AbsDiff(a.v, b.v), x < y ? UW(y) - UW(x) : UW(x) - UW(y))
BIN(tSaturatedAdd, SaturatedAdd(a.v, b.v), Sat<T>(UW(x) + UW(y)))
BIN(tSaturatedSub, SaturatedSub(a.v, b.v), Sat<T>(UW(x) - UW(y)))
BIN(tAverageRound, AverageRound(a.v, b.v), (UW(x) + UW(y) + 1) >> 1)
BIN(tMin, Min(a.v, b.v), x < y ? x : y)
BIN(tMax, Max(a.v, b.v), x < y ? y : x)
VP_OP(tClamp) { Sym<D> a("a"), lo("lo"), hi("hi"); Ref<D> e; VP_LANES { vp_assume(lo[i] <= hi[i]); e[i] = a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i]; } Expect(d, Clamp(a.v, lo.v, hi.v), e, "Clamp"); }
BIN(tMul, Mul(a.v, b.v), MulW(x, y))
template <class T> static inline T MulHiS(T a, T b) { return static_cast<T>((W<T>(a) * W<T>(b)) >> (sizeof(T) * 8)); }
template <> inline uint32_t MulHiS<uint32_t>(uint32_t a, uint32_t b) { return static_cast<uint32_t>((uint64_t(a) * b) >> 32); }
template <> inline uint64_t MulHiS<uint64_t>(uint64_t a, uint64_t b) { return static_cast<uint64_t>((static_cast<unsigned __int128>(a) * b) >> 64); }
BIN(tMulHigh, MulHigh(a.v, b.v), MulHiS<T>(x, y))
VP_OP(tMulFixedPoint15) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { vp_assume(a[i] != LimitsMin<T>() || b[i] != LimitsMin<T>()); e[i] = static_cast<T>((int32_t(a[i]) * b[i] + (1 << 14)) >> 15); } Expect(d, MulFixedPoint15(a.v, b.v), e, "MulFixedPoint15"); }
template <class T> static inline MakeWide<T> WMul(T a, T b) { return static_cast<MakeWide<T>>(static_cast<MakeWide<T>>(a) * static_cast<MakeWide<T>>(b)); }
VP_OP(tMulEven) { Sym<D> a("a"), b("b"); 
#if HWY_TARGET == HWY_SCALAR
  MakeWide<T> e[1] = {WMul(a[0], b[0])}, o[1]; auto r = MulEven(a.v, b.v); memcpy(o, &r, sizeof(o)); vp_eq(o, e, 1, sizeof(e[0]), "MulEven"); (void)d;
#else
  RepartitionToWide<D> dw; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 2; i++) e[i] = WMul(a[2 * i], b[2 * i]); Expect(dw, MulEven(a.v, b.v), e, "MulEven");
#endif
}
NOTSCALAR(VP_OP(tMulOdd) { Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 2; i++) e[i] = WMul(a[2 * i + 1], b[2 * i + 1]); Expect(dw, MulOdd(a.v, b.v), e, "MulOdd"); })
template <class T> struct W128 { using t = i128; }; template <> struct W128<uint64_t> { using t = unsigned __int128; };
NOTSCALAR(VP_OP(tMulEvenOdd64) { Sym<D> a("a"), b("b"); Ref<D> e, o; using X = typename W128<T>::t; for (size_t i = 0; i < N; i += 2) { X p = X(a[i]) * X(b[i]), q = X(a[i + 1]) * X(b[i + 1]); e[i] = T(p); e[i + 1] = T(p >> 64); o[i] = T(q); o[i + 1] = T(q >> 64); } Expect(d, MulEven(a.v, b.v), e, "MulEven"); Expect(d, MulOdd(a.v, b.v), o, "MulOdd"); })
#define TRI(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"), c("c"); Ref<D> e; VP_LANES { const T x = a[i], y = b[i], z = c[i]; e[i] = static_cast<T>(SPEC); } Expect(d, CALL, e, #NAME); }
TRI(tMulAdd, MulAdd(a.v, b.v, c.v), MulW(x, y) + UW(z))
TRI(tNegMulAdd, NegMulAdd(a.v, b.v, c.v), UW(z) - MulW(x, y))
TRI(tMulSub, MulSub(a.v, b.v, c.v), UW(MulW(x, y)) - z)
TRI(tNegMulSub, NegMulSub(a.v, b.v, c.v), -UW(MulW(x, y)) - z)
TRI(tMulAddSub, MulAddSub(a.v, b.v, c.v), i % 2 ? MulW(x, y) + UW(z) : MulW(x, y) - UW(z))
TRI(tMulSubAdd, MulSubAdd(a.v, b.v, c.v), i % 2 ? MulW(x, y) - UW(z) : MulW(x, y) + UW(z))
BIN(tAddSub, AddSub(a.v, b.v), i % 2 ? UW(x) + y : UW(x) - y)
NOTSCALAR(
VP_OP(tPairwiseAdd) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES e[i] = T(i % 2 ? UW(b[i - 1]) + b[i] : UW(a[i]) + a[i + 1]); Expect(d, PairwiseAdd(d, a.v, b.v), e, "PairwiseAdd"); }
VP_OP(tPairwiseSub) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES e[i] = T(i % 2 ? UW(b[i]) - b[i - 1] : UW(a[i + 1]) - a[i]); Expect(d, PairwiseSub(d, a.v, b.v), e, "PairwiseSub"); }
template <class D> struct Pair128 { static bool lt(const TFromD<D>* a, const TFromD<D>* b) { return a[1] < b[1] || (a[1] == b[1] && a[0] < b[0]); } static bool ltu(const TFromD<D>* a, const TFromD<D>* b) { return a[1] < b[1]; } };
VP_OP(tMinMax128) { Sym<D> a("a"), b("b"); Ref<D> mn, mx, nu, xu; for (size_t i = 0; i < N; i += 2) { bool lt = Pair128<D>::lt(a.l + i, b.l + i), gt = Pair128<D>::lt(b.l + i, a.l + i), ltu = Pair128<D>::ltu(a.l + i, b.l + i), gtu = Pair128<D>::ltu(b.l + i, a.l + i); for (size_t k = i; k < i + 2; k++) { mn[k] = lt ? a[k] : b[k]; mx[k] = gt ? a[k] : b[k]; nu[k] = ltu ? a[k] : b[k]; xu[k] = gtu ? a[k] : b[k]; } }
  Expect(d, Min128(d, a.v, b.v), mn, "Min128"); Expect(d, Max128(d, a.v, b.v), mx, "Max128"); Expect(d, Min128Upper(d, a.v, b.v), nu, "Min128Upper"); Expect(d, Max128Upper(d, a.v, b.v), xu, "Max128Upper"); }
)
// ---- masked arithmetic
#define MBIN(NAME, CALLOR, CALLZ, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"), no("no"); SymM<D> m("m"); Ref<D> e, z; VP_LANES { const T x = a[i], y = b[i]; (void)y; const T v = static_cast<T>(SPEC); e[i] = m[i] ? v : no[i]; z[i] = m[i] ? v : T(0); } Expect(d, CALLOR, e, #NAME "Or"); Expect(d, CALLZ, z, #NAME); }
MBIN(tMaskedAdd, MaskedAddOr(no.v, m.m, a.v, b.v), MaskedAdd(m.m, a.v, b.v), UW(x) + y)
MBIN(tMaskedSub, MaskedSubOr(no.v, m.m, a.v, b.v), MaskedSub(m.m, a.v, b.v), UW(x) - y)
MBIN(tMaskedMul, MaskedMulOr(no.v, m.m, a.v, b.v), MaskedMul(m.m, a.v, b.v), MulW(x, y))
MBIN(tMaskedMax, MaskedMaxOr(no.v, m.m, a.v, b.v), MaskedMax(m.m, a.v, b.v), x < y ? y : x)
VP_OP(tMaskedMin) { Sym<D> a("a"), b("b"), no("no"); SymM<D> m("m"); Ref<D> e; VP_LANES e[i] = m[i] ? (a[i] < b[i] ? a[i] : b[i]) : no[i]; Expect(d, MaskedMinOr(no.v, m.m, a.v, b.v), e, "MaskedMinOr"); }
MBIN(tMaskedSatAdd, MaskedSatAddOr(no.v, m.m, a.v, b.v), MaskedSaturatedAdd(m.m, a.v, b.v), Sat<T>(UW(x) + UW(y)))
MBIN(tMaskedSatSub, MaskedSatSubOr(no.v, m.m, a.v, b.v), MaskedSaturatedSub(m.m, a.v, b.v), Sat<T>(UW(x) - UW(y)))
MBIN(tMaskedAbs, MaskedAbsOr(no.v, m.m, a.v), MaskedAbs(m.m, a.v), x < 0 ? -UW(x) : UW(x))
VP_OP(tMaskedMulAdd) { Sym<D> a("a"), b("b"), c("c"), no("no"); SymM<D> m("m"); Ref<D> e, z, n; VP_LANES { T p = MulW(a[i], b[i]); T v = T(UW(p) + c[i]); e[i] = m[i] ? v : no[i]; z[i] = m[i] ? v : T(0); n[i] = m[i] ? T(UW(c[i]) - p) : T(0); }
  Expect(d, MaskedMulAddOr(no.v, m.m, a.v, b.v, c.v), e, "MaskedMulAddOr"); Expect(d, MaskedMulAdd(m.m, a.v, b.v, c.v), z, "MaskedMulAdd"); Expect(d, MaskedNegMulAdd(m.m, a.v, b.v, c.v), n, "MaskedNegMulAdd"); }
VP_OP(tMaskedMulFixedPoint15) { Sym<D> a("a"), b("b"); SymM<D> m("m"); Ref<D> e; VP_LANES { vp_assume(a[i] != LimitsMin<T>() || b[i] != LimitsMin<T>()); e[i] = m[i] ? static_cast<T>((int32_t(a[i]) * b[i] + (1 << 14)) >> 15) : T(0); } Expect(d, MaskedMulFixedPoint15(m.m, a.v, b.v), e, "MaskedMulFixedPoint15"); }
void Main() {
  REG(tAdd, LUI); REG(tSub, LUI); NOTSCALAR(REG(tOpAdd, LUI); REG(tOpSub, LUI);) REG(tNeg, LI); REG(tSaturatedNeg, LI); REG(tAbs, LI); REG(tSaturatedAbs, LI); REG(tAbsDiff, LUI);
  REG(tSaturatedAdd, LUI); REG(tSaturatedSub, LUI); REG(tAverageRound, LUI); REG(tMin, LUI); REG(tMax, LUI); REG(tClamp, LUI); REG(tMul, LUI); REG(tMulHigh, LUI); REG1(tMulFixedPoint15, int16_t);
#if HWY_TARGET == HWY_SCALAR
  REG(tMulEven, LUI81632);
#else
  REGMIN(tMulEven, LUI81632, 8); REGMIN(tMulOdd, LUI81632, 8); REGMIN(tMulEvenOdd64, TL<uint64_t>, 16); REGMIN(tMulEvenOdd64, TL<int64_t>, 16);
  REGMIN(tPairwiseAdd, LUI, 16); REGMIN(tPairwiseSub, LUI, 16); REG1MIN(tMinMax128, uint64_t, 16);
#endif
  REG(tMulAdd, LUI); REG(tNegMulAdd, LUI); REG(tMulSub, LUI); REG(tNegMulSub, LUI); REG(tMulAddSub, LUI); REG(tMulSubAdd, LUI); REG(tAddSub, LUI);
  REG(tMaskedAdd, LUI); REG(tMaskedSub, LUI); REG(tMaskedMul, LUI); REG(tMaskedMax, LUI); REG(tMaskedMin, LUI); REG(tMaskedSatAdd, LUI816); REG(tMaskedSatSub, LUI816); REG(tMaskedAbs, LI); REG(tMaskedMulAdd, LUI); REG1(tMaskedMulFixedPoint15, int16_t);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
