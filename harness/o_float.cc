// C09: floating-point lane arithmetic
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
#define BINF(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { const T x = a[i], y = b[i]; (void)y; e[i] = static_cast<T>(SPEC); } ExpectF(d, CALL, e, #NAME); }
#define UNF(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"); Ref<D> e; VP_LANES { const T x = a[i]; e[i] = static_cast<T>(SPEC); } ExpectF(d, CALL, e, #NAME); }
template <class T> static inline T SignMaskT() { return FromBits<T>(static_cast<MakeUnsigned<T>>(MakeUnsigned<T>(1) << (sizeof(T) * 8 - 1))); }
template <class T> static inline T AbsB(T x) { return FromBits<T>(static_cast<MakeUnsigned<T>>(Bits(x) & ~Bits(SignMaskT<T>()))); }
template <class T> static inline T NegB(T x) { return FromBits<T>(static_cast<MakeUnsigned<T>>(Bits(x) ^ Bits(SignMaskT<T>()))); }
static inline float FmaT(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
static inline double FmaT(double a, double b, double c) { return __builtin_fma(a, b, c); }
static inline float SqrtT(float a) { return __builtin_sqrtf(a); }
static inline double SqrtT(double a) { return __builtin_sqrt(a); }
static inline float RintT(float a) { return __builtin_rintf(a); } static inline double RintT(double a) { return __builtin_rint(a); }
static inline float TruncT(float a) { return __builtin_truncf(a); } static inline double TruncT(double a) { return __builtin_trunc(a); }
static inline float CeilT(float a) { return __builtin_ceilf(a); } static inline double CeilT(double a) { return __builtin_ceil(a); }
static inline float FloorT(float a) { return __builtin_floorf(a); } static inline double FloorT(double a) { return __builtin_floor(a); }
// same bits, or both NaN
template <class T> static inline bool Same(T x, T y) { return Bits(x) == Bits(y) || (IsNaNBits(x) && IsNaNBits(y)); }
// same value: zeros of either sign are equal
template <class T> static inline bool SameV(T x, T y) { return Same(x, y) || ((Bits(x) | Bits(y)) << 1) == 0; }
template <class D, class V> static inline void ExpectV(D, const V& r, Ref<D>& e, const char* l) { using T = TFromD<D>; T o[kN<D>]; memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < kN<D>; i++) if (((Bits(o[i]) | Bits(e[i])) << 1) == 0) o[i] = e[i]; vp_feq(o, e.l, kN<D>, sizeof(T), l); }
// separate rounding: the compiler of the native replay must not fuse
template <class T> static inline T NoFuse(T x) {
#ifndef VP_VERIFY
  asm volatile("" : "+m"(x));
#endif
  return x; }
template <class T> static inline T MulT(T x, T y) { return NoFuse(static_cast<T>(x * y)); }
BINF(tAdd, Add(a.v, b.v), x + y)
BINF(tSub, Sub(a.v, b.v), x - y)
BINF(tMul, Mul(a.v, b.v), MulT(x, y))
BINF(tDiv, Div(a.v, b.v), x / y)
BINF(tOpAdd, (a.v + b.v), x + y)
BINF(tOpSub, (a.v - b.v), x - y)
BINF(tOpMul, (a.v * b.v), MulT(x, y))
BINF(tOpDiv, (a.v / b.v), x / y)
BINF(tAddSub, AddSub(a.v, b.v), i % 2 ? x + y : x - y)
BINF(tAbsDiff, AbsDiff(a.v, b.v), AbsB(T(x - y)))
UNF(tSqrt, Sqrt(a.v), SqrtT(x))
#define UNB(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"); Ref<D> e; VP_LANES { const T x = a[i]; e[i] = static_cast<T>(SPEC); } Expect(d, CALL, e, #NAME); }
UNB(tAbs, Abs(a.v), AbsB(x))
UNB(tNeg, Neg(a.v), NegB(x))
VP_OP(tCopySign) { Sym<D> a("a"), b("b"); Ref<D> e, f; VP_LANES { e[i] = Bits(b[i]) >> (sizeof(T) * 8 - 1) ? NegB(AbsB(a[i])) : AbsB(a[i]); f[i] = FromBits<T>(static_cast<MakeUnsigned<T>>(Bits(a[i]) | (Bits(b[i]) & Bits(SignMaskT<T>())))); } Expect(d, CopySign(a.v, b.v), e, "CopySign"); 
  VP_LANES { a[i] = AbsB(a[i]); } a.sync(); VP_LANES { e[i] = FromBits<T>(static_cast<MakeUnsigned<T>>(Bits(a[i]) | (Bits(b[i]) & Bits(SignMaskT<T>())))); } Expect(d, CopySignToAbs(a.v, b.v), e, "CopySignToAbs"); }
// ---- rounding: NaN stays NaN, the sign of a zero result is not specified
#define RND(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"); Ref<D> e; VP_LANES { e[i] = SPEC(a[i]); } ExpectV(d, CALL(a.v), e, #NAME); }
RND(tRound, Round, RintT) RND(tTrunc, Trunc, TruncT) RND(tCeil, Ceil, CeilT) RND(tFloor, Floor, FloorT)
// ---- classification
#define CLS(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"); bool e[N]; const MakeUnsigned<T> E = ExponentMask<T>(), Mn = static_cast<MakeUnsigned<T>>(~Bits(SignMaskT<T>())); VP_LANES { const MakeUnsigned<T> x = Bits(a[i]) & Mn, y = Bits(b[i]) & Mn; (void)y; e[i] = SPEC; } ExpectM(d, CALL, e, #NAME); }
CLS(tIsNaN, IsNaN(a.v), x > E) CLS(tIsInf, IsInf(a.v), x == E) CLS(tIsFinite, IsFinite(a.v), x < E) CLS(tIsEitherNaN, IsEitherNaN(a.v, b.v), (x > E || y > E))
VP_OP(tMaskedIsNaN) { Sym<D> a("a"); SymM<D> m("m"); bool e[N]; VP_LANES { e[i] = m[i] && IsNaNBits(a[i]); } ExpectM(d, MaskedIsNaN(m.m, a.v), e, "MaskedIsNaN"); }
VP_OP(tGetBiasedExponent) { using U = MakeUnsigned<T>; const RebindToUnsigned<D> du; Sym<D> a("a"); Ref<RebindToUnsigned<D>> e; VP_LANES { e[i] = static_cast<U>((Bits(a[i]) & ExponentMask<T>()) >> MantissaBits<T>()); } Expect(du, GetBiasedExponent(a.v), e, "GetBiasedExponent"); }
VP_OP(tGetExponent) { using U = MakeUnsigned<T>; Sym<D> a("a"); Ref<D> e; VP_LANES { const U x = static_cast<U>((Bits(a[i]) & ExponentMask<T>()) >> MantissaBits<T>()); vp_assume(x != 0 && x != (ExponentMask<T>() >> MantissaBits<T>())); using I = MakeSigned<T>; e[i] = static_cast<T>(static_cast<I>(static_cast<I>(x) - static_cast<I>(MaxExponentField<T>() >> 1))); } ExpectF(d, GetExponent(a.v), e, "GetExponent"); }
// ---- min/max of numbers
template <class D> static inline void NoNaN(const Sym<D>& a) { for (size_t i = 0; i < kN<D>; i++) vp_assume(!IsNaNBits(a[i])); }
#define MM(NAME, CALL, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"); NoNaN<D>(a); NoNaN<D>(b); Ref<D> e; VP_LANES { const T x = a[i], y = b[i]; e[i] = SPEC; } ExpectV(d, CALL(a.v, b.v), e, #NAME); }
MM(tMin, Min, (x < y ? x : y)) MM(tMax, Max, (x < y ? y : x))
MM(tMinMagnitude, MinMagnitude, ((AbsB(x) < AbsB(y) || (AbsB(x) == AbsB(y) && x < y)) ? x : y))
MM(tMaxMagnitude, MaxMagnitude, ((AbsB(x) < AbsB(y) || (AbsB(x) == AbsB(y) && x < y)) ? y : x))
VP_OP(tClamp) { Sym<D> a("a"), lo("lo"), hi("hi"); NoNaN<D>(a); NoNaN<D>(lo); NoNaN<D>(hi); Ref<D> e; VP_LANES { vp_assume(lo[i] <= hi[i]); e[i] = a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i]; } ExpectV(d, Clamp(a.v, lo.v, hi.v), e, "Clamp"); }
VP_OP(tZeroIfNegative) { Sym<D> a("a"); NoNaN<D>(a); Ref<D> e; VP_LANES { e[i] = a[i] < 0 ? T(0) : a[i]; } ExpectV(d, ZeroIfNegative(a.v), e, "ZeroIfNegative"); }
// ---- multiply-add: fused, or product and sum rounded separately
template <class D, class V, class F, class G> static inline void Expect2(D, const V& r, F f, G g, const char* l, const bool* on = nullptr, bool hasNo = false, const TFromD<D>* no = nullptr) { using T = TFromD<D>; T o[kN<D>]; memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < kN<D>; i++) { if (on) { const T n = hasNo ? no[i] : T(0); vp_check(on[i] ? SameV(o[i], f(i)) || SameV(o[i], g(i)) : Bits(o[i]) == Bits(n), l); } else vp_check(SameV(o[i], f(i)) || SameV(o[i], g(i)), l); } }
#define FMAOP(NAME, CALL, NP, NC) VP_OP(NAME) { Sym<D> a("a"), b("b"), c("c"); const auto p = [&](size_t i) { return (NP) ? NegB(a[i]) : a[i]; }; const auto q = [&](size_t i) { return (NC) ? NegB(c[i]) : c[i]; }; Expect2(d, CALL(a.v, b.v, c.v), [&](size_t i) { return FmaT(p(i), b[i], q(i)); }, [&](size_t i) { return T(MulT(p(i), b[i]) + q(i)); }, #NAME); }
FMAOP(tMulAdd, MulAdd, false, false) FMAOP(tNegMulAdd, NegMulAdd, true, false) FMAOP(tMulSub, MulSub, false, true) FMAOP(tNegMulSub, NegMulSub, true, true) FMAOP(tMulAddSub, MulAddSub, false, i % 2 == 0) FMAOP(tMulSubAdd, MulSubAdd, false, i % 2 == 1)
VP_OP(tMaskedFma) { Sym<D> a("a"), b("b"), c("c"), no("no"); SymM<D> m("m"); const auto f = [&](size_t i) { return FmaT(a[i], b[i], c[i]); }; const auto g = [&](size_t i) { return T(MulT(a[i], b[i]) + c[i]); };
  Expect2(d, MaskedMulAddOr(no.v, m.m, a.v, b.v, c.v), f, g, "MaskedMulAddOr", m.l, true, no.l); Expect2(d, MaskedMulAdd(m.m, a.v, b.v, c.v), f, g, "MaskedMulAdd", m.l);
  Expect2(d, MaskedNegMulAdd(m.m, a.v, b.v, c.v), [&](size_t i) { return FmaT(NegB(a[i]), b[i], c[i]); }, [&](size_t i) { return T(MulT(NegB(a[i]), b[i]) + c[i]); }, "MaskedNegMulAdd", m.l); }
// ---- masked arithmetic
#define MSK(NAME, CALL, CALLOR, SPEC) VP_OP(NAME) { Sym<D> a("a"), b("b"), no("no"); SymM<D> m("m"); Ref<D> e, z; VP_LANES { const T x = a[i], y = b[i]; (void)y; const T r = SPEC; e[i] = m[i] ? r : no[i]; z[i] = m[i] ? r : T(0); } ExpectF(d, CALLOR, e, #NAME "Or"); ExpectF(d, CALL, z, #NAME); }
MSK(tMaskedAdd, MaskedAdd(m.m, a.v, b.v), MaskedAddOr(no.v, m.m, a.v, b.v), x + y) MSK(tMaskedSub, MaskedSub(m.m, a.v, b.v), MaskedSubOr(no.v, m.m, a.v, b.v), x - y) MSK(tMaskedMul, MaskedMul(m.m, a.v, b.v), MaskedMulOr(no.v, m.m, a.v, b.v), MulT(x, y)) MSK(tMaskedDiv, MaskedDiv(m.m, a.v, b.v), MaskedDivOr(no.v, m.m, a.v, b.v), x / y)
MSK(tMaskedSqrt, MaskedSqrt(m.m, a.v), MaskedSqrtOr(no.v, m.m, a.v), SqrtT(x))
VP_OP(tMaskedMinMax) { Sym<D> a("a"), b("b"), no("no"); SymM<D> m("m"); NoNaN<D>(a); NoNaN<D>(b); Ref<D> e, f, z; VP_LANES { const T x = a[i], y = b[i]; e[i] = m[i] ? (x < y ? x : y) : no[i]; f[i] = m[i] ? (x < y ? y : x) : no[i]; z[i] = m[i] ? (x < y ? y : x) : T(0); } ExpectV(d, MaskedMinOr(no.v, m.m, a.v, b.v), e, "MaskedMinOr"); ExpectV(d, MaskedMaxOr(no.v, m.m, a.v, b.v), f, "MaskedMaxOr"); ExpectV(d, MaskedMax(m.m, a.v, b.v), z, "MaskedMax"); }
VP_OP(tMulRound) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { e[i] = RintT(MulT(a[i], b[i])); } ExpectV(d, MulRound(a.v, b.v), e, "MulRound"); }
// ---- scaling by powers of two
static inline double Pow2D(int64_t e) { return FromBits<double>(static_cast<uint64_t>(e + 1023) << 52); }
static inline float LdexpT(float x, int32_t e) { const int32_t c = e < -400 ? -400 : e > 400 ? 400 : e; return static_cast<float>(static_cast<double>(x) * Pow2D(c)); }
// correctly rounded x * 2^e from the bits
static inline double LdexpT(double x, int64_t e) {
  const uint64_t b = Bits(x), s = b >> 63 << 63; uint64_t m = b << 12 >> 12; int64_t ex = static_cast<int64_t>(b << 1 >> 53);
  if (ex == 2047 || (ex == 0 && m == 0)) return x;
  if (ex == 0) { const int z = __builtin_clzll(m) - 11; m <<= z; ex = 1 - z; } else m |= uint64_t(1) << 52;
  ex += e < -5000 ? -5000 : e > 5000 ? 5000 : e;
  if (ex >= 2047) return FromBits<double>(s | 0x7FF0000000000000ull);
  if (ex >= 1) return FromBits<double>(s | (static_cast<uint64_t>(ex) << 52) | (m & ((uint64_t(1) << 52) - 1)));
  if (ex < -53) return FromBits<double>(s);  // below half of the smallest subnormal
  const int sh = static_cast<int>(1 - ex);  // 1..54
  const uint64_t q = m >> sh, rem = m & ((uint64_t(1) << sh) - 1), half = uint64_t(1) << (sh - 1);
  return FromBits<double>(s | (q + ((rem > half || (rem == half && (q & 1))) ? 1 : 0)));
}
VP_OP(tMulByPow2) { Sym<D> a("a"); Sym<RebindToSigned<D>> b("b"); Ref<D> e; VP_LANES { e[i] = LdexpT(a[i], b[i]); } ExpectF(d, MulByPow2(a.v, b.v), e, "MulByPow2"); }
// for finite b the documented equivalent; MulByPow2 and FloorInt have contracts of their own
VP_OP(tMulByFloorPow2) { Sym<D> a("a"), b("b"); T o[N], q[N]; const auto r = MulByFloorPow2(a.v, b.v); memcpy(o, &r, sizeof(o)); const auto p = MulByPow2(a.v, FloorInt(b.v)); memcpy(q, &p, sizeof(q)); const MakeUnsigned<T> E = ExponentMask<T>();
  VP_LANES { const T x = a[i], y = b[i]; const bool inf = Bits(AbsB(y)) == E, ynan = IsNaNBits(y), pos = Bits(y) == E, xn = IsNaNBits(x); if (inf && xn) vp_check(IsNaNBits(o[i]) || Bits(o[i]) == (pos ? E : 0) || Bits(AbsB(o[i])) == 0, "MulByFloorPow2(NaN, inf)"); else if (inf) vp_check(Same(o[i], pos ? MulT(x, y) : MulT(x, T(0))), "MulByFloorPow2(a, inf)"); else if (ynan) vp_check(IsNaNBits(o[i]), "MulByFloorPow2(a, NaN)"); else vp_check(Same(o[i], q[i]), "MulByFloorPow2"); } }
// ---- complex numbers: real parts in even lanes
VP_OPIF(tComplexConj, N >= 2) { Sym<D> a("a"); Ref<D> e; VP_LANES { e[i] = i % 2 ? NegB(a[i]) : a[i]; } Expect(d, ComplexConj(a.v), e, "ComplexConj"); }
// the sum of two products, rounded separately or with one product fused
template <class T> static inline bool Sum2(T o, T a, T b, T c, T d) { const T p = MulT(a, b), q = MulT(c, d); return SameV(o, T(p + q)) || SameV(o, FmaT(a, b, q)) || SameV(o, FmaT(c, d, p)); }
template <class T> static inline bool Sum3(T o, T a, T b, T c, T d, T z) { const T p = MulT(a, b), q = MulT(c, d); const T pz[2] = {T(p + z), FmaT(a, b, z)}, qz[2] = {T(q + z), FmaT(c, d, z)};
  bool r = SameV(o, T(T(p + q) + z)) || SameV(o, T(FmaT(a, b, q) + z)) || SameV(o, T(FmaT(c, d, p) + z)); for (int i = 0; i < 2; i++) r = r || SameV(o, T(pz[i] + q)) || SameV(o, FmaT(c, d, pz[i])) || SameV(o, T(qz[i] + p)) || SameV(o, FmaT(a, b, qz[i])); return r; }
template <bool kConj, class D, class V> static inline void ExpectCx(D dd, const V& r, const Sym<D>& a, const Sym<D>& b, const Sym<D>* c, const char* l, const bool* on = nullptr, bool hasNo = false, const TFromD<D>* no = nullptr) { (void)dd; using T = TFromD<D>; T o[kN<D>]; memcpy(o, &r, sizeof(o));
  for (size_t i = 0; i < kN<D>; i++) { const size_t j = i & ~size_t(1); const T ar = a[j], ai = a[j + 1], br = b[j], bi = kConj ? NegB(b[j + 1]) : b[j + 1]; bool ok; if (c) ok = i % 2 ? Sum3(o[i], ar, bi, ai, br, (*c)[i]) : Sum3(o[i], ar, br, NegB(ai), bi, (*c)[i]); else ok = i % 2 ? Sum2(o[i], ar, bi, ai, br) : Sum2(o[i], ar, br, NegB(ai), bi);
    if (on) { const T n = hasNo ? no[i] : T(0); vp_check(on[i] ? ok : Bits(o[i]) == Bits(n), l); } else vp_check(ok, l); } }
VP_OPIF(tMulComplex, N >= 2) { Sym<D> a("a"), b("b"); ExpectCx<false>(d, MulComplex(a.v, b.v), a, b, static_cast<const Sym<D>*>(nullptr), "MulComplex"); ExpectCx<true>(d, MulComplexConj(a.v, b.v), a, b, static_cast<const Sym<D>*>(nullptr), "MulComplexConj"); }
VP_OPIF(tMulComplexAdd, N >= 2) { Sym<D> a("a"), b("b"), c("c"); ExpectCx<false>(d, MulComplexAdd(a.v, b.v, c.v), a, b, &c, "MulComplexAdd"); ExpectCx<true>(d, MulComplexConjAdd(a.v, b.v, c.v), a, b, &c, "MulComplexConjAdd"); }
VP_OPIF(tMaskedMulComplex, N >= 2) { Sym<D> a("a"), b("b"), c("c"), no("no"); SymM<D> m("m"); ExpectCx<true>(d, MaskedMulComplexConjAdd(m.m, a.v, b.v, c.v), a, b, &c, "MaskedMulComplexConjAdd", m.l); ExpectCx<true>(d, MaskedMulComplexConj(m.m, a.v, b.v), a, b, static_cast<const Sym<D>*>(nullptr), "MaskedMulComplexConj", m.l); ExpectCx<false>(d, MaskedMulComplexOr(no.v, m.m, a.v, b.v), a, b, static_cast<const Sym<D>*>(nullptr), "MaskedMulComplexOr", m.l, true, no.l); }
// ---- bfloat16 products
static inline float BF(bfloat16_t x) { uint16_t u; memcpy(&u, &x, 2); return FromBits<float>(static_cast<uint32_t>(u) << 16); }
template <class D, bool sc> static void BfMulAdd(D) { const Repartition<float, D> df; using DF = Repartition<float, D>; Sym<D> a("a"), b("b"); Sym<DF> c("c"); 
  Expect2(df, MulEvenAdd(df, a.v, b.v, c.v), [&](size_t i) { return FmaT(BF(a[2 * i]), BF(b[2 * i]), c[i]); }, [&](size_t i) { return MulT(BF(a[2 * i]), BF(b[2 * i])) + c[i]; }, "MulEvenAdd");
  Expect2(df, MulOddAdd(df, a.v, b.v, c.v), [&](size_t i) { return FmaT(BF(a[2 * i + 1]), BF(b[2 * i + 1]), c[i]); }, [&](size_t i) { return MulT(BF(a[2 * i + 1]), BF(b[2 * i + 1])) + c[i]; }, "MulOddAdd"); }
NOTSCALAR(VP_OPIF(tBf16MulAdd, N >= 2) { BfMulAdd<D, false>(d); }
VP_OPIF(tBf16WidenMulPairwiseAdd, N >= 2) { const Repartition<float, D> df; using DF = Repartition<float, D>; Sym<D> a("a"), b("b"); float o[kN<DF>]; const auto r = WidenMulPairwiseAdd(df, a.v, b.v); memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < kN<DF>; i++) vp_check(Sum2(o[i], BF(a[2 * i]), BF(b[2 * i]), BF(a[2 * i + 1]), BF(b[2 * i + 1])), "WidenMulPairwiseAdd(bf16)"); })
void Main() {
  REG(tAdd, LF); REG(tSub, LF); REG(tMul, LF); REG(tDiv, LF); REG(tOpAdd, LF); REG(tOpSub, LF); REG(tOpMul, LF); REG(tOpDiv, LF); REG(tAddSub, LF); REG(tAbsDiff, LF); REG(tSqrt, LF); REG(tAbs, LF); REG(tNeg, LF); REG(tCopySign, LF);
  REG(tRound, LF); REG(tTrunc, LF); REG(tCeil, LF); REG(tFloor, LF); REG(tIsNaN, LF); REG(tIsInf, LF); REG(tIsFinite, LF); REG(tIsEitherNaN, LF); REG(tMaskedIsNaN, LF); REG(tGetBiasedExponent, LF); REG(tGetExponent, LF);
  REG(tMin, LF); REG(tMax, LF); REG(tMinMagnitude, LF); REG(tMaxMagnitude, LF); REG(tClamp, LF); REG(tZeroIfNegative, LF); REG(tMulAdd, LF); REG(tNegMulAdd, LF); REG(tMulSub, LF); REG(tNegMulSub, LF); REG(tMulAddSub, LF); REG(tMulSubAdd, LF); REG(tMaskedFma, LF);
  REG(tMaskedAdd, LF); REG(tMaskedSub, LF); REG(tMaskedMul, LF); REG(tMaskedDiv, LF); REG(tMaskedSqrt, LF); REG(tMaskedMinMax, LF); REG(tMulRound, LF); REG(tMulByPow2, LF); REG(tMulByFloorPow2, LF);
  REG(tComplexConj, LF); REG(tMulComplex, LF); REG(tMulComplexAdd, LF); REG(tMaskedMulComplex, LF);
  NOTSCALAR(REG1(tBf16MulAdd, bfloat16_t); REG1(tBf16WidenMulPairwiseAdd, bfloat16_t);)
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
