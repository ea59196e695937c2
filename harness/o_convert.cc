// C04: conversions between lane types
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
#if HWY_TARGET == HWY_SCALAR
static constexpr size_t kMaxB = 8; template <class D, class TO> constexpr bool kFits = kN<D> == 1;
#else
static constexpr size_t kMaxB = HWY_TARGET <= HWY_AVX3 ? 64 : HWY_TARGET <= HWY_AVX2 ? 32 : 16; template <class D, class TO> constexpr bool kFits = kN<D> * sizeof(TO) <= kMaxB;
#endif
template <class TO, class F, class... Ts> struct Each;
// integers: the value, if representable; else the closest representable
template <class TO, class TI> static inline TO Sat(TI x) { using L = std::numeric_limits<TO>; if (IsSigned<TI>()) { const int64_t v = static_cast<int64_t>(x); if (sizeof(TO) == 8 && !IsSigned<TO>()) return v < 0 ? TO(0) : static_cast<TO>(v); const int64_t lo = static_cast<int64_t>(L::min()), hi = static_cast<int64_t>(L::max()); return v < lo ? L::min() : v > hi ? L::max() : static_cast<TO>(v); }
  const uint64_t v = static_cast<uint64_t>(x); return v > static_cast<uint64_t>(L::max()) ? L::max() : static_cast<TO>(v); }
// floating point to integer: toward zero, closest representable; NaN not covered
template <class T> constexpr bool kF = IsFloat<T>();
template <class TI, class TF> static inline TI FSat(TF x) { using L = std::numeric_limits<TI>; const TF lim = static_cast<TF>(uint64_t(1) << (sizeof(TI) * 8 - 2)) * (IsSigned<TI>() ? TF(2) : TF(4)); if (x >= lim) return L::max(); if (IsSigned<TI>() ? x < -lim : x <= TF(-1)) return L::min(); if (!IsSigned<TI>() && x < 0) return 0; return static_cast<TI>(x); }
template <class TI, class TF> static inline bool InRange(TF x) { const TF lim = static_cast<TF>(uint64_t(1) << (sizeof(TI) * 8 - 2)) * (IsSigned<TI>() ? TF(2) : TF(4)); return x < lim && (IsSigned<TI>() ? x >= -lim : x > TF(-1)); }
template <class T> static inline bool NotNaN(T x) { return !IsNaNBits(x); }
template <class TO, class T> static inline TO Conv(T x) { if constexpr (kF<T> && !kF<TO>) return FSat<TO>(x); else if constexpr (!kF<T> && !kF<TO>) return Sat<TO>(x); else return static_cast<TO>(x); }
template <class TO, class D> static void PreF(const Sym<D>& a, size_t n) { if constexpr (kF<TFromD<D>> && !kF<TO>) for (size_t i = 0; i < n; i++) vp_assume(NotNaN(a[i])); }
template <class TO, class D2, class V> static void Exp(D2 d, const V& v, Ref<D2>& e, const char* l) { if constexpr (kF<TO>) ExpectF(d, v, e, l); else Expect(d, v, e, l); }
#define FROMTO(NAME, TO, ...) template <class D> struct NAME { using T = TFromD<D>; static constexpr size_t N = kN<D>; static constexpr bool kOk = (__VA_ARGS__); static void run() { D d; (void)d; body(d); } static void body(D d); }; template <class D> void NAME<D>::body(D d)
// ---- promotions; TO given by size and kind
template <class D, class TO> static void PromoteAll(D d) { const Rebind<TO, D> dt; Sym<D> a("a"); PreF<TO>(a, kN<D>); Ref<Rebind<TO, D>> e; for (size_t i = 0; i < kN<D>; i++) e[i] = Conv<TO>(a[i]); Exp<TO>(dt, PromoteTo(dt, a.v), e, "PromoteTo"); }
#define PROM(NAME, TO) VP_OPIF(NAME, kFits<D, TO>) { PromoteAll<D, TO>(d); }
PROM(tPromoteTo_u16, uint16_t) PROM(tPromoteTo_i16, int16_t) PROM(tPromoteTo_u32, uint32_t) PROM(tPromoteTo_i32, int32_t) PROM(tPromoteTo_u64, uint64_t) PROM(tPromoteTo_i64, int64_t) PROM(tPromoteTo_f64, double)
template <class D, class TO> static void PromoteParts(D d) { const Repartition<TO, D> dt; constexpr size_t n = kN<Repartition<TO, D>>; Sym<D> a("a"); PreF<TO>(a, kN<D>); Ref<Repartition<TO, D>> lo, up, ev, od; for (size_t i = 0; i < n; i++) { lo[i] = Conv<TO>(a[i]); up[i] = Conv<TO>(a[n + i]); ev[i] = Conv<TO>(a[2 * i]); od[i] = Conv<TO>(a[2 * i + 1]); }
  Exp<TO>(dt, PromoteLowerTo(dt, a.v), lo, "PromoteLowerTo"); Exp<TO>(dt, PromoteUpperTo(dt, a.v), up, "PromoteUpperTo"); Exp<TO>(dt, PromoteEvenTo(dt, a.v), ev, "PromoteEvenTo"); Exp<TO>(dt, PromoteOddTo(dt, a.v), od, "PromoteOddTo"); }
#define PARTS(NAME, TO) VP_OPIF(NAME, (kN<D> > 1)) { PromoteParts<D, TO>(d); }
PARTS(tPromoteParts_u16, uint16_t) PARTS(tPromoteParts_i16, int16_t) PARTS(tPromoteParts_u32, uint32_t) PARTS(tPromoteParts_i32, int32_t) PARTS(tPromoteParts_u64, uint64_t) PARTS(tPromoteParts_i64, int64_t) PARTS(tPromoteParts_f64, double)
// ---- demotions
template <class D, class TO> static void DemoteAll(D d) { const Rebind<TO, D> dt; Sym<D> a("a"); PreF<TO>(a, kN<D>); if constexpr (kF<TFromD<D>> && kF<TO>) for (size_t i = 0; i < kN<D>; i++) vp_assume(!(a[i] > 3.40282346638528860e+38) && !(a[i] < -3.40282346638528860e+38)); /* overflow to float: infinity or the largest finite value */ Ref<Rebind<TO, D>> e; for (size_t i = 0; i < kN<D>; i++) e[i] = Conv<TO>(a[i]); Exp<TO>(dt, DemoteTo(dt, a.v), e, "DemoteTo"); }
#define DEM(NAME, TO) VP_OPIF(NAME, true) { DemoteAll<D, TO>(d); }
DEM(tDemoteTo_u8, uint8_t) DEM(tDemoteTo_i8, int8_t) DEM(tDemoteTo_u16, uint16_t) DEM(tDemoteTo_i16, int16_t) DEM(tDemoteTo_u32, uint32_t) DEM(tDemoteTo_i32, int32_t) DEM(tDemoteTo_f32, float)
template <class D, class TO> static void TruncAll(D d) { const Rebind<TO, D> dt; Sym<D> a("a"); Ref<Rebind<TO, D>> e; for (size_t i = 0; i < kN<D>; i++) e[i] = static_cast<TO>(a[i]); Exp<TO>(dt, TruncateTo(dt, a.v), e, "TruncateTo"); }
#define TRUNC(NAME, TO) VP_OPIF(NAME, true) { TruncAll<D, TO>(d); }
TRUNC(tTruncateTo_u8, uint8_t) TRUNC(tTruncateTo_u16, uint16_t) TRUNC(tTruncateTo_u32, uint32_t)
VP_OP(tU8FromU32) { const Rebind<uint8_t, D> dt; Sym<D> a("a"); Ref<Rebind<uint8_t, D>> e; VP_LANES { vp_assume(a[i] < 256); e[i] = static_cast<uint8_t>(a[i]); } Expect(dt, U8FromU32(a.v), e, "U8FromU32"); }
// ---- two-vector demotions
template <class D, class TO> static void Demote2(D d) { const Repartition<TO, D> dt; using DT = Repartition<TO, D>; using T = TFromD<D>; constexpr size_t n = kN<D>; static_assert(kN<DT> == 2 * n, ""); Sym<D> a("a"), b("b"); Ref<DT> e; for (size_t i = 0; i < n; i++) { e[i] = Conv<TO>(a[i]); e[n + i] = Conv<TO>(b[i]); }
  Expect(dt, OrderedDemote2To(dt, a.v, b.v), e, "OrderedDemote2To");
  // the fixed output order of ReorderDemote2To is determined by distinct constants
  T ca[kRawN<D>] = {}, cb[kRawN<D>] = {}; for (size_t i = 0; i < n; i++) { ca[i] = static_cast<T>(i); cb[i] = static_cast<T>(n + i); } Vec<D> va, vb; memcpy(static_cast<void*>(&va), ca, sizeof(va)); memcpy(static_cast<void*>(&vb), cb, sizeof(vb)); TO p[2 * n]; const auto r = ReorderDemote2To(dt, va, vb); memcpy(p, &r, sizeof(p)); bool used[2 * n] = {}; Ref<DT> q;
  for (size_t i = 0; i < 2 * n; i++) { const size_t k = static_cast<size_t>(p[i]); vp_check(k < 2 * n && !used[k < 2 * n ? k : 0], "ReorderDemote2To: the order is a permutation"); if (k < 2 * n) { used[k] = true; q[i] = e[k]; } else q[i] = 0; }
  Expect(dt, ReorderDemote2To(dt, a.v, b.v), q, "ReorderDemote2To"); }
VP_OP(tDemote2_u) { Demote2<D, MakeNarrow<MakeUnsigned<T>>>(d); }
VP_OP(tDemote2_i) { Demote2<D, MakeNarrow<MakeSigned<T>>>(d); }
VP_OP(tOrderedTruncate2To) { using TO = MakeNarrow<T>; const Repartition<TO, D> dt; using DT = Repartition<TO, D>; Sym<D> a("a"), b("b"); Ref<DT> e; VP_LANES { e[i] = static_cast<TO>(a[i]); e[N + i] = static_cast<TO>(b[i]); } Expect(dt, OrderedTruncate2To(dt, a.v, b.v), e, "OrderedTruncate2To"); }
// ---- same size
template <class DT, class D, class M> static void MaskedCv(DT dt, const Sym<D>& a, const M& k, Ref<DT>& e) { for (size_t i = 0; i < kN<D>; i++) e[i] = k[i] ? e[i] : TFromD<DT>(0); if constexpr (kF<TFromD<DT>>) ExpectF(dt, MaskedConvertTo(RebindMask(dt, k.m), dt, a.v), e, "MaskedConvertTo"); else Expect(dt, MaskedConvertTo(RebindMask(dt, k.m), dt, a.v), e, "MaskedConvertTo"); }
VP_OP(tConvertToFloat) { using TO = MakeFloat<T>; const Rebind<TO, D> dt; Sym<D> a("a"); Ref<Rebind<TO, D>> e; SymM<D> k("m"); VP_LANES { e[i] = static_cast<TO>(a[i]); } ExpectF(dt, ConvertTo(dt, a.v), e, "ConvertTo"); MaskedCv(dt, a, k, e); }
template <class D, class TO> static void ToInt(D d) { const Rebind<TO, D> dt; Sym<D> a("a"); PreF<TO>(a, kN<D>); Ref<Rebind<TO, D>> e; for (size_t i = 0; i < kN<D>; i++) e[i] = Conv<TO>(a[i]); Expect(dt, ConvertTo(dt, a.v), e, "ConvertTo"); SymM<D> k("m"); MaskedCv(dt, a, k, e); }
VP_OP(tConvertToSigned) { ToInt<D, MakeSigned<T>>(d); }
VP_OP(tConvertToUnsigned) { ToInt<D, MakeUnsigned<T>>(d); }
template <class D, class TO, class V, class DT> static void InR(DT dt, const Sym<D>& a, const V& v, const char* l) { TO o[kN<D>], e[kN<D>]; memcpy(o, &v, sizeof(o)); for (size_t i = 0; i < kN<D>; i++) { const bool in = InRange<TO>(a[i]); e[i] = in ? static_cast<TO>(a[i]) : TO(0); o[i] = in ? o[i] : TO(0); } vp_eq(o, e, kN<D>, sizeof(TO), l); }
VP_OP(tConvertInRangeTo) { const RebindToSigned<D> di; const RebindToUnsigned<D> du; Sym<D> a("a"); InR<D, MakeSigned<T>>(di, a, ConvertInRangeTo(di, a.v), "ConvertInRangeTo(signed)"); InR<D, MakeUnsigned<T>>(du, a, ConvertInRangeTo(du, a.v), "ConvertInRangeTo(unsigned)"); }
VP_OP(tDemoteInRangeTo) { const Rebind<int32_t, D> di; const Rebind<uint32_t, D> du; Sym<D> a("a"); InR<D, int32_t>(di, a, DemoteInRangeTo(di, a.v), "DemoteInRangeTo(i32)"); InR<D, uint32_t>(du, a, DemoteInRangeTo(du, a.v), "DemoteInRangeTo(u32)"); }
VP_OPIF(tPromoteInRangeTo, kFits<D, int64_t>) { const Rebind<int64_t, D> di; const Rebind<uint64_t, D> du; Sym<D> a("a"); InR<D, int64_t>(di, a, PromoteInRangeTo(di, a.v), "PromoteInRangeTo(i64)"); InR<D, uint64_t>(du, a, PromoteInRangeTo(du, a.v), "PromoteInRangeTo(u64)"); }
template <class D, class TO> static void InRParts(D) { const Repartition<TO, D> dt; constexpr size_t n = kN<Repartition<TO, D>>; Sym<D> a("a"); TO o[n], e[n];
#define P_(OP, IX) { const auto v = OP(dt, a.v); memcpy(o, &v, sizeof(o)); for (size_t i = 0; i < n; i++) { const float x = a[IX]; const bool in = InRange<TO>(x); e[i] = in ? static_cast<TO>(x) : TO(0); o[i] = in ? o[i] : TO(0); } vp_eq(o, e, n, 8, #OP); }
  P_(PromoteInRangeLowerTo, i) P_(PromoteInRangeUpperTo, n + i) P_(PromoteInRangeEvenTo, 2 * i) P_(PromoteInRangeOddTo, 2 * i + 1)
#undef P_
}
NOTSCALAR(VP_OPIF(tPromoteInRangeParts_i64, (kN<D> > 1)) { InRParts<D, int64_t>(d); } VP_OPIF(tPromoteInRangeParts_u64, (kN<D> > 1)) { InRParts<D, uint64_t>(d); })
// nearest, ties to even
template <class TI, class TF> static inline TI Near(TF x) { return FSat<TI>(sizeof(TF) == 4 ? static_cast<TF>(__builtin_rintf(static_cast<float>(x))) : static_cast<TF>(__builtin_rint(static_cast<double>(x)))); }
VP_OP(tNearestInt) { const RebindToSigned<D> di; using TI = MakeSigned<T>; Sym<D> a("a"); PreF<TI>(a, N); Ref<RebindToSigned<D>> e; VP_LANES e[i] = Near<TI>(a[i]); Expect(di, NearestInt(a.v), e, "NearestInt"); }
VP_OP(tCeilFloorInt) { const RebindToSigned<D> di; using TI = MakeSigned<T>; Sym<D> a("a"); PreF<TI>(a, N); Ref<RebindToSigned<D>> e, f; VP_LANES { e[i] = FSat<TI>(sizeof(T) == 4 ? static_cast<T>(__builtin_ceilf(static_cast<float>(a[i]))) : static_cast<T>(__builtin_ceil(static_cast<double>(a[i])))); f[i] = FSat<TI>(sizeof(T) == 4 ? static_cast<T>(__builtin_floorf(static_cast<float>(a[i]))) : static_cast<T>(__builtin_floor(static_cast<double>(a[i])))); } Expect(di, CeilInt(a.v), e, "CeilInt"); Expect(di, FloorInt(a.v), f, "FloorInt"); }
VP_OP(tDemoteToNearestInt) { const Rebind<int32_t, D> di; Sym<D> a("a"); PreF<int32_t>(a, N); Ref<Rebind<int32_t, D>> e; VP_LANES e[i] = Near<int32_t>(a[i]); Expect(di, DemoteToNearestInt(di, a.v), e, "DemoteToNearestInt"); }
// ---- half precision and bfloat16 (bit-level definitions)
static inline uint32_t F32FromHalf(uint16_t h) { const uint32_t s = uint32_t(h & 0x8000) << 16, m = h & 0x3FF, x = (h >> 10) & 31; uint32_t r = 0; if (x == 31) r = 0x7F800000u | (m << 13); else if (x) r = ((x + 112) << 23) | (m << 13); else { for (unsigned b = 0; b < 10; b++) if ((m >> b) == 1) r = ((b + 103) << 23) | ((m << (23 - b)) & 0x7FFFFF); } return s | r; }
static inline uint16_t HalfFromF32(uint32_t f) { const uint16_t s = static_cast<uint16_t>((f >> 16) & 0x8000); const uint32_t a = f & 0x7FFFFFFF; if (a > 0x7F800000) return static_cast<uint16_t>(s | 0x7E00 | ((a >> 13) & 0x3FF)); if (a >= 0x477FF000) return static_cast<uint16_t>(s | 0x7C00);
  const uint32_t m = a & 0x7FFFFF; if (a >= 0x38800000) { const uint32_t q = (a - 0x38000000) >> 13, rem = a & 0x1FFF; return static_cast<uint16_t>(s | (q + ((rem > 0x1000) | ((rem == 0x1000) & (q & 1))))); }
  if (a < 0x33000000) return s; const uint32_t full = m | 0x800000; uint16_t r = s; for (unsigned x = 102; x < 113; x++) if ((a >> 23) == x) { const unsigned sh = 126 - x; const uint32_t q = full >> sh, rem = full & ((1u << sh) - 1), half = 1u << (sh - 1); r = static_cast<uint16_t>(s | (q + ((rem > half) | ((rem == half) & (q & 1))))); } return r; }
static inline uint64_t F64FromHalf(uint16_t h) { const uint64_t s = uint64_t(h & 0x8000) << 48, m = h & 0x3FF, x = (h >> 10) & 31; uint64_t r = 0; if (x == 31) r = 0x7FF0000000000000ull | (m << 42); else if (x) r = ((x + 1008) << 52) | (m << 42); else { for (unsigned b = 0; b < 10; b++) if ((m >> b) == 1) r = (uint64_t(b + 999) << 52) | ((m << (52 - b)) & 0xFFFFFFFFFFFFFull); } return s | r; }
static inline uint16_t HalfFromF64(uint64_t f) { const uint16_t s = static_cast<uint16_t>((f >> 48) & 0x8000); const uint64_t a = f & 0x7FFFFFFFFFFFFFFFull; if (a > 0x7FF0000000000000ull) return static_cast<uint16_t>(s | 0x7E00); if (a >= 0x40EFFE0000000000ull) return static_cast<uint16_t>(s | 0x7C00);
  if (a >= 0x3F10000000000000ull) { const uint64_t q = (a - 0x3F00000000000000ull) >> 42, rem = a & 0x3FFFFFFFFFFull, half = 0x20000000000ull; return static_cast<uint16_t>(s | (q + ((rem > half) | ((rem == half) & (q & 1))))); }
  uint16_t r = s; const uint64_t full = (a & 0xFFFFFFFFFFFFFull) | (1ull << 52); for (unsigned x = 998; x < 1009; x++) if ((a >> 52) == x) { const unsigned sh = 1051 - x; const uint64_t q = full >> sh, rem = full & ((1ull << sh) - 1), half = 1ull << (sh - 1); r = static_cast<uint16_t>(s | (q + ((rem > half) | ((rem == half) & (q & 1))))); } return r; }
using f16 = hwy::float16_t; using bf16 = hwy::bfloat16_t;
template <class D> struct SymH { uint16_t l[kRawN<D>]; Vec<D> v; explicit SymH(const char* n) { vp_sym(l, sizeof(l), 2, n); memcpy(static_cast<void*>(&v), l, sizeof(v)); } };
#define ISNAN32(b) (((b) & 0x7FFFFFFF) > 0x7F800000)
VP_OPIF(tPromoteF16, kFits<D, float>) { const Rebind<float, D> dt; SymH<D> a("a"); const auto r = PromoteTo(dt, a.v); float o[N], e[N]; memcpy(o, &r, sizeof(o)); VP_LANES e[i] = FromBits<float>(F32FromHalf(a.l[i])); vp_feq(o, e, N, 4, "PromoteTo(f16 to f32)"); }
VP_OPIF(tPromoteBF16, kFits<D, float>) { const Rebind<float, D> dt; SymH<D> a("a"); const auto r = PromoteTo(dt, a.v); uint32_t o[N], e[N]; memcpy(o, &r, sizeof(o)); VP_LANES e[i] = uint32_t(a.l[i]) << 16; vp_eq(o, e, N, 4, "PromoteTo(bf16 to f32)"); }
VP_OPIF(tPromotePartsBF16, (kN<D> > 1)) { const Repartition<float, D> dt; constexpr size_t n = N / 2; SymH<D> a("a"); uint32_t o[n], e[n];
#define P_(OP, IX) { const auto r = OP(dt, a.v); memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < n; i++) e[i] = uint32_t(a.l[IX]) << 16; vp_eq(o, e, n, 4, #OP); }
  P_(PromoteLowerTo, i) P_(PromoteUpperTo, n + i) P_(PromoteEvenTo, 2 * i) P_(PromoteOddTo, 2 * i + 1)
#undef P_
}
VP_OPIF(tPromotePartsF16, (kN<D> > 1)) { const Repartition<float, D> dt; constexpr size_t n = N / 2; SymH<D> a("a"); float o[n], e[n];
#define P_(OP, IX) { const auto r = OP(dt, a.v); memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < n; i++) e[i] = FromBits<float>(F32FromHalf(a.l[IX])); vp_feq(o, e, n, 4, #OP); }
  P_(PromoteLowerTo, i) P_(PromoteUpperTo, n + i) P_(PromoteEvenTo, 2 * i) P_(PromoteOddTo, 2 * i + 1)
#undef P_
}
VP_OPIF(tPromoteF16toF64, kFits<D, double>) { const Rebind<double, D> dt; SymH<D> a("a"); const auto r = PromoteTo(dt, a.v); double o[N], e[N]; memcpy(o, &r, sizeof(o)); VP_LANES e[i] = FromBits<double>(F64FromHalf(a.l[i])); vp_feq(o, e, N, 8, "PromoteTo(f16 to f64)"); }
#define ISNAN64(b) (((b) & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull)
VP_OP(tDemoteF64toF16) { const Rebind<f16, D> dt; Sym<D> a("a"); const auto r = DemoteTo(dt, a.v); uint16_t o[N], e[N]; memcpy(o, &r, sizeof(o)); VP_LANES { e[i] = HalfFromF64(Bits(a[i])); if (ISNAN64(Bits(a[i]))) { vp_check((o[i] & 0x7FFF) > 0x7C00, "DemoteTo(f64 to f16): NaN stays NaN"); o[i] = e[i]; } } vp_eq(o, e, N, 2, "DemoteTo(f64 to f16)"); }
VP_OP(tDemoteF16) { const Rebind<f16, D> dt; Sym<D> a("a"); const auto r = DemoteTo(dt, a.v); uint16_t o[N], e[N]; memcpy(o, &r, sizeof(o)); VP_LANES { e[i] = HalfFromF32(Bits(a[i])); if (ISNAN32(Bits(a[i]))) { vp_check((o[i] & 0x7FFF) > 0x7C00, "DemoteTo(f32 to f16): NaN stays NaN"); o[i] = e[i]; } } vp_eq(o, e, N, 2, "DemoteTo(f32 to f16)"); }
// ReorderDemote2To may truncate, which is documented; a truncated NaN may become infinity
static inline bool BFOkT(uint32_t x, uint16_t r) { const uint32_t t = x >> 16; if (ISNAN32(x)) return (r & 0x7FFF) > 0x7F80 || r == t; const uint32_t rn = (x + 0x7FFF + ((x >> 16) & 1)) >> 16; return r == t || r == rn; }
static inline bool BFOk(uint32_t x, uint16_t r) { if (ISNAN32(x)) return (r & 0x7FFF) > 0x7F80; const uint32_t t = x >> 16, rn = (x + 0x7FFF + ((x >> 16) & 1)) >> 16; return r == t || r == rn; }
VP_OP(tDemoteBF16) { const Rebind<bf16, D> dt; Sym<D> a("a"); const auto r = DemoteTo(dt, a.v); uint16_t o[N]; memcpy(o, &r, sizeof(o)); VP_LANES vp_check(BFOk(Bits(a[i]), o[i]), "DemoteTo(f32 to bf16): truncated or rounded, NaN stays NaN"); }
VP_OP(tDemote2BF16) { const Repartition<bf16, D> dt; Sym<D> a("a"), b("b"); uint16_t o[2 * N], q[2 * N]; { const auto r = OrderedDemote2To(dt, a.v, b.v); memcpy(o, &r, sizeof(o)); } VP_LANES { vp_check(BFOk(Bits(a[i]), o[i]), "OrderedDemote2To(bf16): lower half"); vp_check(BFOk(Bits(b[i]), o[N + i]), "OrderedDemote2To(bf16): upper half"); }
  float ca[kRawN<D>] = {}, cb[kRawN<D>] = {}; for (size_t i = 0; i < N; i++) { ca[i] = static_cast<float>(i + 1); cb[i] = static_cast<float>(N + i + 1); } Vec<D> va, vb; memcpy(static_cast<void*>(&va), ca, sizeof(va)); memcpy(static_cast<void*>(&vb), cb, sizeof(vb)); { const auto r = ReorderDemote2To(dt, va, vb); memcpy(q, &r, sizeof(q)); } { const auto r = ReorderDemote2To(dt, a.v, b.v); memcpy(o, &r, sizeof(o)); }
  bool used[2 * N] = {}; for (size_t i = 0; i < 2 * N; i++) { const float fv = FromBits<float>(uint32_t(q[i]) << 16); const size_t k = static_cast<size_t>(fv) - 1; vp_check(k < 2 * N && !used[k < 2 * N ? k : 0], "ReorderDemote2To(bf16): the order is a permutation"); if (k < 2 * N) { used[k] = true; vp_check(BFOkT(k < N ? Bits(a[k < N ? k : 0]) : Bits(b[k < N ? 0 : k - N]), o[i]), "ReorderDemote2To(bf16)"); } } }
using L8 = TL<uint8_t, int8_t>; using LU8 = TL<uint8_t>; using LI8 = TL<int8_t>; using L16 = TL<uint16_t, int16_t>; using LU816 = TL<uint8_t, uint16_t>; using LU81632 = TL<uint8_t, uint16_t, uint32_t>; using L32 = TL<uint32_t, int32_t>; using LW = TL<uint16_t, uint32_t, uint64_t, int16_t, int32_t, int64_t>; using L3264 = TL<uint32_t, int32_t, uint64_t, int64_t>; using L64F = TL<uint64_t, int64_t, double>; using L64 = TL<uint64_t, int64_t>; using LUW = TL<uint16_t, uint32_t, uint64_t>; using LU3264 = TL<uint32_t, uint64_t>; using LU64 = TL<uint64_t>; using LU32 = TL<uint32_t>; using LF32 = TL<float>; using LF64 = TL<double>;
void Main() {
  REG(tPromoteTo_u16, LU8); REG(tPromoteTo_i16, L8); REG(tPromoteTo_u32, LU816); REG(tPromoteTo_i32, LUI816); REG(tPromoteTo_u64, LU81632); REG(tPromoteTo_i64, LUI81632); REG1(tPromoteTo_u64, float); REG1(tPromoteTo_i64, float); using L32F = TL<uint32_t, int32_t, float>; REG(tPromoteTo_f64, L32F);
  REG(tDemoteTo_u8, LW); REG(tDemoteTo_i8, LW); REG(tDemoteTo_u16, L3264); REG(tDemoteTo_i16, L3264); REG(tDemoteTo_u32, L64F); REG(tDemoteTo_i32, L64F); REG(tDemoteTo_f32, L64F); REG(tTruncateTo_u8, LUW); REG(tTruncateTo_u16, LU3264); REG(tTruncateTo_u32, LU64); REG(tU8FromU32, LU32);
  REG(tConvertToFloat, LUI3264); REG(tConvertToSigned, LF); REG(tConvertToUnsigned, LF); REG(tConvertInRangeTo, LF); REG(tDemoteInRangeTo, LF64); REG(tPromoteInRangeTo, LF32); REG(tNearestInt, LF); REG(tCeilFloorInt, LF); REG(tDemoteToNearestInt, LF64);
  REG1(tPromoteF16, f16); REG1(tPromoteBF16, bf16); REG1(tPromoteF16toF64, f16); REG(tDemoteF64toF16, LF64); REG(tDemoteF16, LF32); REG(tDemoteBF16, LF32);
#if HWY_TARGET != HWY_SCALAR
  REG(tPromoteParts_u16, LU8); REG(tPromoteParts_i16, L8); REG1(tPromoteParts_u32, uint16_t); REG(tPromoteParts_i32, L16); REG1(tPromoteParts_u64, uint32_t); REG(tPromoteParts_i64, L32); REG1(tPromoteParts_i64, float); REG1(tPromoteParts_u64, float); REG(tPromoteParts_f64, L32F);
  REG(tDemote2_u, LW); REG(tDemote2_i, LW); REG(tOrderedTruncate2To, LUW); REG1(tPromoteInRangeParts_i64, float); REG1(tPromoteInRangeParts_u64, float); REG1(tPromotePartsBF16, bf16); REG1(tPromotePartsF16, f16); REG(tDemote2BF16, LF32);
#endif
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
