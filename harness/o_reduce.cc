// C08: reductions, widening sums and products, crypto
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class T> static inline bool LtT(T a, T b) { return a < b; }
// ---- reductions. Integers: exact (sums modulo 2^bits)
template <class D> static TFromD<D> SumL(const TFromD<D>* l, const bool* on) { using T = TFromD<D>; MakeUnsigned<T> s = 0; for (size_t i = 0; i < kN<D>; i++) s = static_cast<MakeUnsigned<T>>(s + ((on == nullptr || on[i]) ? static_cast<MakeUnsigned<T>>(l[i]) : 0)); return static_cast<T>(s); }
template <class D> static void Fill1(Ref<D>& e, TFromD<D> x) { for (size_t i = 0; i < kN<D>; i++) e[i] = x; }
VP_OP(tSumOfLanes) { Sym<D> a("a"); Ref<D> e; const T s = SumL<D>(a.l, nullptr); Fill1(e, s); Expect(d, SumOfLanes(d, a.v), e, "SumOfLanes"); ExpectS(ReduceSum(d, a.v), s, "ReduceSum"); }
VP_OP(tMaskedReduceSum) { Sym<D> a("a"); SymM<D> m("m"); bool any = false; VP_LANES any = any || m[i]; vp_assume(any); ExpectS(MaskedReduceSum(d, m.m, a.v), SumL<D>(a.l, m.l), "MaskedReduceSum"); }
template <class D, bool kMax> static TFromD<D> MinL(const TFromD<D>* l, const bool* on) { using T = TFromD<D>; T s = 0; for (size_t i = 0; i < kN<D>; i++) { const T x = (on == nullptr || on[i]) ? l[i] : kMax ? LimitsMin<T>() : LimitsMax<T>(); s = i == 0 ? x : kMax ? (s < x ? x : s) : (x < s ? x : s); } return s; }
VP_OP(tMinOfLanes) { Sym<D> a("a"); Ref<D> e; const T s = MinL<D, false>(a.l, nullptr); Fill1(e, s); Expect(d, MinOfLanes(d, a.v), e, "MinOfLanes"); ExpectS(ReduceMin(d, a.v), s, "ReduceMin"); }
VP_OP(tMaxOfLanes) { Sym<D> a("a"); Ref<D> e; const T s = MinL<D, true>(a.l, nullptr); Fill1(e, s); Expect(d, MaxOfLanes(d, a.v), e, "MaxOfLanes"); ExpectS(ReduceMax(d, a.v), s, "ReduceMax"); }
VP_OP(tMaskedReduceMinMax) { Sym<D> a("a"); SymM<D> m("m"); bool any = false; VP_LANES any = any || m[i]; vp_assume(any); ExpectS(MaskedReduceMin(d, m.m, a.v), MinL<D, false>(a.l, m.l), "MaskedReduceMin"); ExpectS(MaskedReduceMax(d, m.m, a.v), MinL<D, true>(a.l, m.l), "MaskedReduceMax"); }
// floats: sums of values whose every partial sum is exact, in any order; minimum and maximum of ordered values
template <class D> static void SymSmall(Sym<D>& a, uint32_t (&u)[kN<D>]) { uint16_t s[kN<D>]; vp_sym(s, sizeof(s), 2, "s"); for (size_t i = 0; i < kN<D>; i++) { u[i] = s[i]; a[i] = static_cast<TFromD<D>>(u[i]); } a.sync(); }
VP_OP(tSumOfLanesF) { Sym<D> a("a"); uint32_t u[N]; SymSmall(a, u); SymM<D> m("m"); uint32_t s = 0, ms = 0; bool any = false; VP_LANES { s += u[i]; ms += m[i] ? u[i] : 0; any = any || m[i]; } Ref<D> e; Fill1(e, static_cast<T>(s)); ExpectF(d, SumOfLanes(d, a.v), e, "SumOfLanes"); T r = ReduceSum(d, a.v), x = static_cast<T>(s); vp_feq(&r, &x, 1, sizeof(T), "ReduceSum");
  vp_assume(any); r = MaskedReduceSum(d, m.m, a.v); x = static_cast<T>(ms); vp_feq(&r, &x, 1, sizeof(T), "MaskedReduceSum"); }
template <class D> static void CheckMinF(TFromD<D> r, const Sym<D>& a, const bool* on, bool mx, const char* l) { bool le = true, eq = false; for (size_t i = 0; i < kN<D>; i++) if (on == nullptr || on[i]) { le = le && (mx ? a[i] <= r : r <= a[i]); eq = eq || Bits(a[i]) == Bits(r); } vp_check(le, l); vp_check(eq, l); }
VP_OP(tMinOfLanesF) { Sym<D> a("a"); SymM<D> m("m"); bool any = false; VP_LANES { vp_assume(a[i] == a[i]); any = any || m[i]; } T o[N]; Lanes(MinOfLanes(d, a.v), o); VP_LANES CheckMinF(o[i], a, nullptr, false, "MinOfLanes");
  Lanes(MaxOfLanes(d, a.v), o); VP_LANES CheckMinF(o[i], a, nullptr, true, "MaxOfLanes");
  CheckMinF(ReduceMin(d, a.v), a, nullptr, false, "ReduceMin"); CheckMinF(ReduceMax(d, a.v), a, nullptr, true, "ReduceMax"); vp_assume(any); CheckMinF(MaskedReduceMin(d, m.m, a.v), a, m.l, false, "MaskedReduceMin"); CheckMinF(MaskedReduceMax(d, m.m, a.v), a, m.l, true, "MaskedReduceMax"); }
VP_OP(tMaskedOr) { Sym<D> a("a"), b("b"); SymM<D> m("m"); Ref<D> e; VP_LANES e[i] = m[i] ? static_cast<T>(a[i] | b[i]) : T(0); Expect(d, MaskedOr(m.m, a.v, b.v), e, "MaskedOr"); }
#if HWY_TARGET != HWY_SCALAR
// ---- widening sums
VP_OP(tSumsOf2) { Sym<D> a("a"); RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 2; i++) e[i] = static_cast<TW>(static_cast<TW>(a[2 * i]) + static_cast<TW>(a[2 * i + 1])); ExpectF(dw, SumsOf2(a.v), e, "SumsOf2"); }
VP_OP(tSumsOf4) { Sym<D> a("a"); RepartitionToWideX2<D> dw; using TW = TFromD<decltype(dw)>; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 4; i++) { TW s = 0; for (size_t k = 0; k < 4; k++) s = static_cast<TW>(s + static_cast<TW>(a[4 * i + k])); e[i] = s; } Expect(dw, SumsOf4(a.v), e, "SumsOf4"); }
VP_OP(tSumsOf8) { Sym<D> a("a"); RepartitionToWideX3<D> dw; using TW = TFromD<decltype(dw)>; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 8; i++) { TW s = 0; for (size_t k = 0; k < 8; k++) s = static_cast<TW>(s + static_cast<TW>(a[8 * i + k])); e[i] = s; } Expect(dw, SumsOf8(a.v), e, "SumsOf8"); }
template <class T> static inline int AD(T a, T b) { return a < b ? int(b) - int(a) : int(a) - int(b); }
// |a-b| in type T (as AbsDiff returns it)
template <class TW, class T> static inline TW ADT(T a, T b) { return static_cast<TW>(static_cast<T>(AD(a, b))); }
VP_OP(tSumsOf8AbsDiff) { Sym<D> a("a"), b("b"); RepartitionToWideX3<D> dw; using TW = TFromD<decltype(dw)>; Ref<decltype(dw)> e; for (size_t i = 0; i < N / 8; i++) { TW s = 0; for (size_t k = 0; k < 8; k++) s = static_cast<TW>(s + static_cast<TW>(AD(a[8 * i + k], b[8 * i + k]))); e[i] = s; } Expect(dw, SumsOf8AbsDiff(a.v, b.v), e, "SumsOf8AbsDiff"); }
template <class D, int kA, int kB> static void Adj(D) { constexpr size_t N = kN<D>; Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; TW o[N / 2]; Lanes(SumsOfAdjQuadAbsDiff<kA, kB>(a.v, b.v), o);
  constexpr size_t n = N < (size_t(8) << kA) ? 1 : N / 2; for (size_t i = 0; i < n; i++) { const size_t ia = kA * 4 + (i / 8) * 16 + (i & 7), ib = kB * 4 + (i / 8) * 16; int s = 0; for (size_t k = 0; k < 4; k++) s += AD(a[ia + k], b[ib + k]); ExpectS(o[i], static_cast<TW>(s), "SumsOfAdjQuadAbsDiff"); } }
template <class D, int kA, int kB, bool ok> struct AdjC { static void go(D d) { Adj<D, kA, kB>(d); } }; template <class D, int kA, int kB> struct AdjC<D, kA, kB, false> { static void go(D) {} };
VP_OP(tSumsOfAdjQuadAbsDiff) { constexpr int ma = N >= 8 ? 1 : 0, mb = N >= 16 ? 3 : N >= 8 ? 1 : 0; AdjC<D, 0, 0, true>::go(d); AdjC<D, 0, 1, (mb >= 1)>::go(d); AdjC<D, 0, 2, (mb >= 2)>::go(d); AdjC<D, 0, 3, (mb >= 3)>::go(d); AdjC<D, 1, 0, (ma >= 1)>::go(d); AdjC<D, 1, 1, (ma >= 1 && mb >= 1)>::go(d); AdjC<D, 1, 2, (ma >= 1 && mb >= 2)>::go(d); AdjC<D, 1, 3, (ma >= 1 && mb >= 3)>::go(d); }
template <class D, int k3, int k2, int k1, int k0> static void Shuf(D) { constexpr size_t N = kN<D>; if (size_t(k0) >= N / 4) return; Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; TW o[N / 2]; Lanes(SumsOfShuffledQuadAbsDiff<k3, k2, k1, k0>(a.v, b.v), o); const size_t ks[4] = {k0, k1, k2, k3};
  for (size_t i = 0; i < N / 2; i++) { const size_t ia = (i / 4) * 8 + (i & 3), ib = (i / 2) * 4; if (N < 16 && (ia + 3 >= N)) continue; if (N < 16 && i > 0 && size_t(k1) >= N / 4) continue; int s = 0; for (size_t k = 0; k < 4; k++) { const size_t q = ia + k; const size_t src = (q & ~size_t(15)) + ks[(q / 4) & 3] * 4 + (q & 3); s += AD(a[src < N ? src : 0], b[ib + k]); } ExpectS(o[i], static_cast<TW>(s), "SumsOfShuffledQuadAbsDiff"); } }
VP_OP(tSumsOfShuffledQuadAbsDiff) { Shuf<D, 3, 2, 1, 0>(d); Shuf<D, 0, 1, 2, 3>(d); Shuf<D, 1, 0, 3, 2>(d); Shuf<D, 2, 3, 0, 1>(d); Shuf<D, 0, 0, 0, 0>(d); Shuf<D, 3, 3, 1, 1>(d); Shuf<D, 1, 2, 0, 0>(d); Shuf<D, 2, 0, 1, 3>(d); }
// ---- widening products
template <class TW, class T> static inline TW MulWd(T a, T b) { return static_cast<TW>(static_cast<uint64_t>(static_cast<int64_t>(a)) * static_cast<uint64_t>(static_cast<int64_t>(b))); }
template <class TW> static inline TW AddW(TW a, TW b) { return static_cast<TW>(static_cast<MakeUnsigned<TW>>(a) + static_cast<MakeUnsigned<TW>>(b)); }
VP_OP(tWidenMulPairwiseAdd) { Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using DW = RepartitionToWide<D>; using TW = TFromD<DW>; SymM<DW> m("m"); Ref<DW> e, z; for (size_t i = 0; i < N / 2; i++) { e[i] = AddW(MulWd<TW>(a[2 * i], b[2 * i]), MulWd<TW>(a[2 * i + 1], b[2 * i + 1])); z[i] = m[i] ? e[i] : TW(0); } Expect(dw, WidenMulPairwiseAdd(dw, a.v, b.v), e, "WidenMulPairwiseAdd"); Expect(dw, MaskedWidenMulPairwiseAdd(dw, m.m, a.v, b.v), z, "MaskedWidenMulPairwiseAdd"); }
template <class TW> static inline TW SatW(int64_t x) { return x < int64_t(LimitsMin<TW>()) ? LimitsMin<TW>() : x > int64_t(LimitsMax<TW>()) ? LimitsMax<TW>() : static_cast<TW>(x); }
VP_OP(tSatWidenMulPairwiseAdd) { RebindToUnsigned<D> du; Sym<decltype(du)> a("a"); Sym<D> b("b"); RepartitionToWide<D> dw; using DW = RepartitionToWide<D>; Ref<DW> e; for (size_t i = 0; i < N / 2; i++) e[i] = SatW<int16_t>(int64_t(a[2 * i]) * b[2 * i] + int64_t(a[2 * i + 1]) * b[2 * i + 1]); Expect(dw, SatWidenMulPairwiseAdd(dw, a.v, b.v), e, "SatWidenMulPairwiseAdd"); }
VP_OP(tSatWidenMulPairwiseAccumulate) { Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using DW = RepartitionToWide<D>; Sym<DW> s("s"); Ref<DW> e; for (size_t i = 0; i < N / 2; i++) e[i] = SatW<int32_t>(int64_t(a[2 * i]) * b[2 * i] + int64_t(a[2 * i + 1]) * b[2 * i + 1] + s[i]); Expect(dw, SatWidenMulPairwiseAccumulate(dw, a.v, b.v, s.v), e, "SatWidenMulPairwiseAccumulate"); }
VP_OP(tReorderWidenMulAccumulate) { Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using DW = RepartitionToWide<D>; using TW = TFromD<DW>; Sym<DW> s("s"); Vec<DW> sum1 = Zero(dw); const Vec<DW> r = ReorderWidenMulAccumulate(dw, a.v, b.v, s.v, sum1); TW o0[N / 2], o1[N / 2]; Lanes(r, o0); Lanes(sum1, o1);
  TW t = 0, w = 0; for (size_t i = 0; i < N / 2; i++) { t = AddW(t, AddW(o0[i], o1[i])); w = AddW(w, AddW(s[i], AddW(MulWd<TW>(a[2 * i], b[2 * i]), MulWd<TW>(a[2 * i + 1], b[2 * i + 1])))); } ExpectS(t, w, "ReorderWidenMulAccumulate: total");
  Sym<D> c("c"), g("g"); Vec<DW> u1 = Zero(dw); Vec<DW> u0 = ReorderWidenMulAccumulate(dw, a.v, b.v, Zero(dw), u1); u0 = ReorderWidenMulAccumulate(dw, c.v, g.v, u0, u1); Ref<DW> e; for (size_t i = 0; i < N / 2; i++) e[i] = AddW(AddW(MulWd<TW>(a[2 * i], b[2 * i]), MulWd<TW>(a[2 * i + 1], b[2 * i + 1])), AddW(MulWd<TW>(c[2 * i], g[2 * i]), MulWd<TW>(c[2 * i + 1], g[2 * i + 1]))); Expect(dw, RearrangeToOddPlusEven(u0, u1), e, "RearrangeToOddPlusEven"); }
template <class D, class DA, class DB> static void Quad(D, DA, DB) { constexpr size_t N = kN<DA>; Sym<DA> a("a"); Sym<DB> b("b"); using TW = TFromD<D>; Sym<D> s("s"); Ref<D> e; for (size_t i = 0; i < N / 4; i++) { TW x = s[i]; for (size_t k = 0; k < 4; k++) x = AddW(x, static_cast<TW>(static_cast<uint64_t>(static_cast<int64_t>(a[4 * i + k])) * static_cast<uint64_t>(static_cast<int64_t>(b[4 * i + k])))); e[i] = x; } D d; Expect(d, SumOfMulQuadAccumulate(d, a.v, b.v, s.v), e, "SumOfMulQuadAccumulate"); }
VP_OP(tSumOfMulQuadAccumulate) { Quad(RepartitionToWideX2<D>(), d, d); }
VP_OP(tSumOfMulQuadAccumulateUI) { Quad(RepartitionToWideX2<D>(), RebindToUnsigned<D>(), d); }
VP_OP(tWidenMulAccumulate) { Sym<D> a("a"), b("b"); RepartitionToWide<D> dw; using DW = RepartitionToWide<D>; using TW = TFromD<DW>; Sym<DW> lo("lo"), hi("hi"); Ref<DW> el, eh; for (size_t i = 0; i < N / 2; i++) { el[i] = AddW(lo[i], MulWd<TW>(a[i], b[i])); eh[i] = AddW(hi[i], MulWd<TW>(a[N / 2 + i], b[N / 2 + i])); } Vec<DW> h = hi.v; const Vec<DW> l = WidenMulAccumulate(dw, a.v, b.v, lo.v, h); Expect(dw, l, el, "WidenMulAccumulate low"); Expect(dw, h, eh, "WidenMulAccumulate high"); }
VP_OP(tPairwise128) { Sym<D> a("a"), b("b"); Ref<D> e, f; constexpr size_t B = 16 / sizeof(T); for (size_t i = 0; i < N; i++) { const size_t blk = i / B * B, k = i % B; const bool up = k >= B / 2; const size_t s = blk + 2 * (k % (B / 2)); const T x = up ? b[s] : a[s], y = up ? b[s + 1] : a[s + 1]; e[i] = AddW(x, y); f[i] = static_cast<T>(static_cast<MakeUnsigned<T>>(y) - static_cast<MakeUnsigned<T>>(x)); } Expect(d, PairwiseAdd128(d, a.v, b.v), e, "PairwiseAdd128"); Expect(d, PairwiseSub128(d, a.v, b.v), f, "PairwiseSub128"); }
// ---- crypto. S-box per FIPS-197: inverse in GF(2^8) modulo x^8+x^4+x^3+x+1, then the affine map
struct Box { uint8_t t[256]; };
static constexpr Box MakeBox(bool inverse) { // exponentials of the generator 3 give inverses
  Box e{}, l{}, s{}, v{}; uint8_t x = 1; for (int i = 0; i < 255; i++) { e.t[i] = x; l.t[x] = static_cast<uint8_t>(i); x = static_cast<uint8_t>(x ^ (x << 1) ^ ((x >> 7) * 0x1B)); }
  for (int i = 0; i < 256; i++) { const unsigned b = i == 0 ? 0 : e.t[(255 - l.t[i]) % 255]; unsigned r = b; for (int k = 1; k < 5; k++) r ^= ((b << k) | (b >> (8 - k))) & 0xFF; s.t[i] = static_cast<uint8_t>(r ^ 0x63); }
  for (int i = 0; i < 256; i++) v.t[s.t[i]] = static_cast<uint8_t>(i);
  return inverse ? v : s; }
static constexpr Box SB = MakeBox(false), ISB = MakeBox(true);
static inline uint8_t X2(uint8_t a) { return static_cast<uint8_t>((a << 1) ^ ((a & 0x80) ? 0x1B : 0)); }
static inline uint8_t MulC(uint8_t a, int k) { const uint8_t a2 = X2(a), a4 = X2(a2), a8 = X2(a4); return static_cast<uint8_t>(((k & 1) ? a : 0) ^ ((k & 2) ? a2 : 0) ^ ((k & 4) ? a4 : 0) ^ ((k & 8) ? a8 : 0)); }
template <class D> static void MixRef(Ref<D>& x, bool inv) { static const int f[4] = {2, 3, 1, 1}, g[4] = {14, 11, 13, 9}; for (size_t c = 0; c < kN<D>; c += 4) { uint8_t s[4], r[4]; for (size_t i = 0; i < 4; i++) s[i] = x[c + i]; for (size_t i = 0; i < 4; i++) { r[i] = 0; for (size_t j = 0; j < 4; j++) r[i] = static_cast<uint8_t>(r[i] ^ MulC(s[j], (inv ? g : f)[(j + 4 - i) & 3])); } for (size_t i = 0; i < 4; i++) x[c + i] = r[i]; } }
template <class D> static void RoundRef(const Sym<D>& s, Ref<D>& x, bool inv) { for (size_t i = 0; i < kN<D>; i++) { const size_t b = i & ~size_t(15), c = (i / 4) & 3, r = i & 3; const size_t src = b + 4 * ((inv ? c + 4 - r : c + r) & 3) + r; x[i] = inv ? ISB.t[s[src]] : SB.t[s[src]]; } }
template <class D> static void XorK(Ref<D>& x, const Sym<D>& k) { for (size_t i = 0; i < kN<D>; i++) x[i] = static_cast<uint8_t>(x[i] ^ k[i]); }
VP_OP(tAESRound) { Sym<D> s("s"), k("k"); Ref<D> e; RoundRef(s, e, false); MixRef(e, false); XorK(e, k); Expect(d, AESRound(s.v, k.v), e, "AESRound"); }
VP_OP(tAESLastRound) { Sym<D> s("s"), k("k"); Ref<D> e; RoundRef(s, e, false); XorK(e, k); Expect(d, AESLastRound(s.v, k.v), e, "AESLastRound"); }
VP_OP(tAESRoundInv) { Sym<D> s("s"), k("k"); Ref<D> e; RoundRef(s, e, true); MixRef(e, true); XorK(e, k); Expect(d, AESRoundInv(s.v, k.v), e, "AESRoundInv"); }
VP_OP(tAESLastRoundInv) { Sym<D> s("s"), k("k"); Ref<D> e; RoundRef(s, e, true); XorK(e, k); Expect(d, AESLastRoundInv(s.v, k.v), e, "AESLastRoundInv"); }
VP_OP(tAESInvMixColumns) { Sym<D> s("s"); Ref<D> e; VP_LANES e[i] = s[i]; MixRef(e, true); Expect(d, AESInvMixColumns(s.v), e, "AESInvMixColumns"); }
template <uint8_t kR, class D> static void KeyGen(D d) { constexpr size_t N = kN<D>; Sym<D> s("s"); Ref<D> e; static const size_t ix[16] = {4, 5, 6, 7, 5, 6, 7, 4, 12, 13, 14, 15, 13, 14, 15, 12}; VP_LANES e[i] = static_cast<uint8_t>(SB.t[s[(i & ~size_t(15)) + ix[i & 15]]] ^ ((i & 7) == 4 ? kR : 0)); Expect(d, AESKeyGenAssist<kR>(s.v), e, "AESKeyGenAssist"); }
VP_OP(tAESKeyGenAssist) { KeyGen<0>(d); KeyGen<0x1B>(d); KeyGen<0xFF>(d); }
template <class D> static void ClRef(Ref<D>& e, const Sym<D>& a, const Sym<D>& b, size_t k) { for (size_t i = 0; i < kN<D>; i += 2) { unsigned __int128 r = 0; for (int q = 0; q < 64; q++) r ^= ((b[i + k] >> q) & 1) ? static_cast<unsigned __int128>(a[i + k]) << q : 0; e[i] = static_cast<uint64_t>(r); e[i + 1] = static_cast<uint64_t>(r >> 64); } }
VP_OP(tCLMulLower) { Sym<D> a("a"), b("b"); Ref<D> e; ClRef(e, a, b, 0); Expect(d, CLMulLower(a.v, b.v), e, "CLMulLower"); }
VP_OP(tCLMulUpper) { Sym<D> a("a"), b("b"); Ref<D> e; ClRef(e, a, b, 1); Expect(d, CLMulUpper(a.v, b.v), e, "CLMulUpper"); }
#endif
VP_OP(tSatWidenMulAccumFixedPoint) { using TW = int32_t; Rebind<int32_t, D> dw; using DW = Rebind<int32_t, D>; Sym<D> a("a"), b("b"); Sym<DW> s("s"); Ref<DW> e; VP_LANES { vp_assume(a[i] != LimitsMin<T>() || b[i] != LimitsMin<T>()); const int64_t x = int64_t(a[i]) * b[i] * 2 + s[i]; e[i] = x < INT32_MIN ? INT32_MIN : x > INT32_MAX ? INT32_MAX : static_cast<TW>(x); } Expect(dw, SatWidenMulAccumFixedPoint(dw, a.v, b.v, s.v), e, "SatWidenMulAccumFixedPoint"); }
void Main() {
  REG(tSumOfLanes, LUI); REG(tMaskedReduceSum, LUI); REG(tMinOfLanes, LUI); REG(tMaxOfLanes, LUI); REG(tMaskedReduceMinMax, LUI); REG(tSumOfLanesF, LF); REG(tMinOfLanesF, LF); REG(tMaskedOr, LUI);
  RegT<tSatWidenMulAccumFixedPoint, int16_t, 0, HWY_TARGET == HWY_SCALAR ? 9999 : HWY_MAX_BYTES / 2>("tSatWidenMulAccumFixedPoint");
#if HWY_TARGET != HWY_SCALAR
  using L8 = TL<uint8_t, int8_t>; using L16 = TL<uint16_t, int16_t>;
  REGMIN(tSumsOf2, L8, 2); REGMIN(tSumsOf2, L16, 4); using L32 = TL<uint32_t, int32_t, float>; REGMIN(tSumsOf2, L32, 8); REGMIN(tSumsOf4, L8, 4); REGMIN(tSumsOf4, L16, 8); REGMIN(tSumsOf8, L8, 8); REGMIN(tSumsOf8AbsDiff, L8, 8); REGMIN(tSumsOfAdjQuadAbsDiff, L8, 4); REGMIN(tSumsOfShuffledQuadAbsDiff, L8, 4);
  REGMIN(tWidenMulPairwiseAdd, L16, 4); REG1MIN(tSatWidenMulPairwiseAdd, int8_t, 2); REG1MIN(tSatWidenMulPairwiseAccumulate, int16_t, 4); REGMIN(tReorderWidenMulAccumulate, L16, 4); REGMIN(tSumOfMulQuadAccumulate, L8, 4); REGMIN(tSumOfMulQuadAccumulate, L16, 8); REG1MIN(tSumOfMulQuadAccumulateUI, int8_t, 4); REGMIN(tWidenMulAccumulate, LUI81632, 8); REGMIN(tPairwise128, LUI, 16);
  REG1MIN(tAESRound, uint8_t, 16); REG1MIN(tAESLastRound, uint8_t, 16); REG1MIN(tAESRoundInv, uint8_t, 16); REG1MIN(tAESLastRoundInv, uint8_t, 16); REG1MIN(tAESInvMixColumns, uint8_t, 16); REG1MIN(tAESKeyGenAssist, uint8_t, 16); REG1MIN(tCLMulLower, uint64_t, 16); REG1MIN(tCLMulUpper, uint64_t, 16);
#endif
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
