// C05: lane movement: get/set, combine, interleave, shuffles, table lookups, slides, blocks
#define VP_SMALL_SIZES 1
#define VP_TINY(F, T) F(T, (sizeof(T) == 1 ? 2 : 0))
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class D> constexpr size_t kB = HWY_MIN(16 / sizeof(TFromD<D>), kN<D>);  // lanes per block
template <class D, class A> static TFromD<D> At(const A& a, size_t i) { return a[i]; }
#define Z FromBits<T>(0)
#define SW1(NAME, COND, CALL, SPEC) VP_OPIF(NAME, COND) { constexpr size_t B = kB<D>; (void)B; Sym<D> a("a"); Ref<D> e; VP_LANES e[i] = SPEC; Expect(d, CALL, e, #NAME); }
#define SW2(NAME, COND, CALL, SPEC) VP_OPIF(NAME, COND) { constexpr size_t B = kB<D>; (void)B; Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES e[i] = SPEC; Expect(d, CALL, e, #NAME); }
#define NBY (kN<D> * sizeof(TFromD<D>))
// ---- initialization
VP_OP(tZero) { Ref<D> e; VP_LANES e[i] = Z; Expect(d, Zero(d), e, "Zero"); }
VP_OP(tSet) { const T t = FromBits<T>(vp_any<MakeUnsigned<T>>("t")); Ref<D> e; VP_LANES e[i] = t; Expect(d, Set(d, t), e, "Set"); }
VP_OP(tSignBit) { Ref<D> e; VP_LANES e[i] = FromBits<T>(static_cast<MakeUnsigned<T>>(MakeUnsigned<T>(1) << (sizeof(T) * 8 - 1))); Expect(d, SignBit(d), e, "SignBit"); }
VP_OP(tIota) { const T t = vp_any<T>("t"); Ref<D> e; VP_LANES e[i] = static_cast<T>(static_cast<MakeUnsigned<T>>(t) + i); Expect(d, Iota(d, t), e, "Iota"); }
VP_OP(tMaskedSet) { const T t = FromBits<T>(vp_any<MakeUnsigned<T>>("t")); SymM<D> m("m"); Sym<D> no("no"); Ref<D> e, f; VP_LANES { e[i] = FromBits<T>(m[i] ? Bits(t) : Bits(no[i])); f[i] = FromBits<T>(m[i] ? Bits(t) : MakeUnsigned<T>(0)); } Expect(d, MaskedSetOr(no.v, m.m, t), e, "MaskedSetOr"); Expect(d, MaskedSet(d, m.m, t), f, "MaskedSet"); }
template <class D, size_t K> struct DupV;
template <class D> struct DupV<D, 1> { static Vec<D> go(D d, const TFromD<D>* t) { return Dup128VecFromValues(d, t[0], t[1]); } };
template <class D> struct DupV<D, 2> { static Vec<D> go(D d, const TFromD<D>* t) { return Dup128VecFromValues(d, t[0], t[1], t[2], t[3]); } };
template <class D> struct DupV<D, 3> { static Vec<D> go(D d, const TFromD<D>* t) { return Dup128VecFromValues(d, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]); } };
template <class D> struct DupV<D, 4> { static Vec<D> go(D d, const TFromD<D>* t) { return Dup128VecFromValues(d, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15]); } };
VP_OP(tDup128VecFromValues) { constexpr size_t K = 16 / sizeof(T); T t[K]; vp_sym(t, sizeof(t), sizeof(T), "t"); Ref<D> e; VP_LANES e[i] = t[i % K]; Expect(d, DupV<D, K == 2 ? 1 : K == 4 ? 2 : K == 8 ? 3 : 4>::go(d, t), e, "Dup128VecFromValues"); }
// ---- single lanes
VP_OP(tGetLane) { Sym<D> a("a"); ExpectS<MakeUnsigned<T>>(Bits(GetLane(a.v)), Bits(a[0]), "GetLane"); }
template <class A> static auto Pick(const A& a, size_t n, size_t i) -> typename std::decay<decltype(a[0])>::type { auto r = a[0]; for (size_t k = 1; k < n; k++) r = i == k ? a[k] : r; return r; }
VP_OP(tExtractLane) { Sym<D> a("a"); size_t i = vp_any<size_t>("i"); vp_assume(i < N); vp_split(&i, 1, 8, 0, N); ExpectS<MakeUnsigned<T>>(Bits(ExtractLane(a.v, i)), Bits(Pick(a.l, N, i)), "ExtractLane"); }
VP_OP(tInsertLane) { Sym<D> a("a"); const T t = FromBits<T>(vp_any<MakeUnsigned<T>>("t")); size_t k = vp_any<size_t>("i"); vp_assume(k < N); vp_split(&k, 1, 8, 0, N); Ref<D> e; VP_LANES e[i] = i == k ? t : a[i]; Expect(d, InsertLane(a.v, k, t), e, "InsertLane"); }
// ---- combine
VP_OPIF(tLowerHalf, kN<D> > 1) { const Half<D> dh; Sym<D> a("a"); Ref<Half<D>> e; for (size_t i = 0; i < kN<Half<D>>; i++) e[i] = a[i]; Expect(dh, LowerHalf(dh, a.v), e, "LowerHalf(d)"); Expect(dh, LowerHalf(a.v), e, "LowerHalf"); }
VP_OPIF(tUpperHalf, kN<D> > 1) { const Half<D> dh; Sym<D> a("a"); Ref<Half<D>> e; for (size_t i = 0; i < kN<Half<D>>; i++) e[i] = a[N / 2 + i]; Expect(dh, UpperHalf(dh, a.v), e, "UpperHalf"); }
VP_OPIF(tZeroExtendVector, kN<D> > 1) { const Half<D> dh; Sym<Half<D>> a("a"); Ref<D> e; VP_LANES e[i] = i < N / 2 ? a[i < N / 2 ? i : 0] : Z; Expect(d, ZeroExtendVector(d, a.v), e, "ZeroExtendVector"); }
VP_OPIF(tCombine, kN<D> > 1) { Sym<Half<D>> a("hi"), b("lo"); Ref<D> e; VP_LANES e[i] = i < N / 2 ? b[i < N / 2 ? i : 0] : a[i % (N / 2)]; Expect(d, Combine(d, a.v, b.v), e, "Combine"); }
SW2(tConcatLowerLower, kN<D> > 1, ConcatLowerLower(d, a.v, b.v), i < N / 2 ? b[i] : a[i - N / 2])
SW2(tConcatUpperUpper, kN<D> > 1, ConcatUpperUpper(d, a.v, b.v), i < N / 2 ? b[i + N / 2] : a[i])
SW2(tConcatLowerUpper, kN<D> > 1, ConcatLowerUpper(d, a.v, b.v), i < N / 2 ? b[i + N / 2] : a[i - N / 2])
SW2(tConcatUpperLower, kN<D> > 1, ConcatUpperLower(d, a.v, b.v), i < N / 2 ? b[i] : a[i])
SW2(tConcatOdd, kN<D> > 1, ConcatOdd(d, a.v, b.v), i < N / 2 ? b[2 * i + 1] : a[2 * (i - N / 2) + 1])
SW2(tConcatEven, kN<D> > 1, ConcatEven(d, a.v, b.v), i < N / 2 ? b[2 * i] : a[2 * (i - N / 2)])
SW2(tInterleaveWholeLower, kN<D> > 1, InterleaveWholeLower(d, a.v, b.v), i % 2 ? b[i / 2] : a[i / 2])
SW2(tInterleaveWholeLower1, kN<D> > 1, InterleaveWholeLower(a.v, b.v), i % 2 ? b[i / 2] : a[i / 2])
SW2(tInterleaveWholeUpper, kN<D> > 1, InterleaveWholeUpper(d, a.v, b.v), i % 2 ? b[N / 2 + i / 2] : a[N / 2 + i / 2])
// ---- blockwise
template <class D, int K, int E> struct BC { static void go(D d, const Sym<D>& a) { constexpr size_t B = kB<D>; Ref<D> e; for (size_t i = 0; i < kN<D>; i++) e[i] = a[i / B * B + K]; Expect(d, Broadcast<K>(a.v), e, "Broadcast"); BC<D, K + 1, E>::go(d, a); } };
template <class D, int E> struct BC<D, E, E> { static void go(D, const Sym<D>&) {} };
VP_OP(tBroadcast) { Sym<D> a("a"); BC<D, 0, int(kB<D>)>::go(d, a); }
template <class D, int K, int E> struct BL { static void go(D d, const Sym<D>& a) { Ref<D> e; for (size_t i = 0; i < kN<D>; i++) e[i] = a[K]; Expect(d, BroadcastLane<K>(a.v), e, "BroadcastLane"); BL<D, K + 1, E>::go(d, a); } };
template <class D, int E> struct BL<D, E, E> { static void go(D, const Sym<D>&) {} };
VP_OP(tBroadcastLane) { Sym<D> a("a"); BL<D, 0, int(kN<D>)>::go(d, a); }
template <class D, int K, int E> struct BB { static void go(D d, const Sym<D>& a, const Sym<BlockDFromD<D>>& q) { constexpr size_t B = kB<D>; const BlockDFromD<D> db; Ref<D> e, ins; Ref<BlockDFromD<D>> x; for (size_t i = 0; i < kN<D>; i++) { e[i] = a[K * B + i % B]; ins[i] = i / B == K ? q[i % B] : a[i]; } for (size_t i = 0; i < B; i++) x[i] = a[K * B + i];
    Expect(d, BroadcastBlock<K>(a.v), e, "BroadcastBlock"); Expect(db, ExtractBlock<K>(a.v), x, "ExtractBlock"); Expect(d, InsertBlock<K>(a.v, q.v), ins, "InsertBlock");
    Ref<D> up, dn; for (size_t i = 0; i < kN<D>; i++) { up[i] = i < K * B ? FromBits<TFromD<D>>(0) : a[i - K * B]; dn[i] = i + K * B < kN<D> ? a[i + K * B] : FromBits<TFromD<D>>(0); } Expect(d, SlideUpBlocks<K>(d, a.v), up, "SlideUpBlocks"); Expect(d, SlideDownBlocks<K>(d, a.v), dn, "SlideDownBlocks");
    BB<D, K + 1, E>::go(d, a, q); } };
template <class D, int E> struct BB<D, E, E> { static void go(D, const Sym<D>&, const Sym<BlockDFromD<D>>&) {} };
VP_OP(tBlocks) { Sym<D> a("a"); Sym<BlockDFromD<D>> q("blk"); ExpectS<size_t>(Blocks(d), N / kB<D>, "Blocks"); BB<D, 0, int(kN<D> / kB<D>)>::go(d, a, q); }
SW2(tInterleaveLower, kN<D> > 1, InterleaveLower(d, a.v, b.v), (i % 2 ? b : a)[i / B * B + i % B / 2])
SW2(tInterleaveLower1, kN<D> > 1, InterleaveLower(a.v, b.v), (i % 2 ? b : a)[i / B * B + i % B / 2])
SW2(tInterleaveUpper, kN<D> > 1, InterleaveUpper(d, a.v, b.v), (i % 2 ? b : a)[i / B * B + B / 2 + i % B / 2])
SW2(tInterleaveEven, kN<D> > 1, InterleaveEven(d, a.v, b.v), i % 2 ? b[i - 1] : a[i])
SW2(tInterleaveEven1, kN<D> > 1, InterleaveEven(a.v, b.v), i % 2 ? b[i - 1] : a[i])
SW2(tInterleaveOdd, kN<D> > 1, InterleaveOdd(d, a.v, b.v), i % 2 ? b[i] : a[i + 1])
SW2(tOddEven, true, OddEven(a.v, b.v), i % 2 ? a[i] : b[i])
SW1(tDupEven, true, DupEven(a.v), a[i - i % 2])
SW1(tDupOdd, kN<D> > 1, DupOdd(a.v), a[i | 1])
SW2(tOddEvenBlocks, true, OddEvenBlocks(a.v, b.v), i / B % 2 ? a[i] : b[i])
SW1(tSwapAdjacentBlocks, (NBY > 16), SwapAdjacentBlocks(a.v), a[i ^ B])
SW2(tInterleaveEvenBlocks, (NBY > 16), InterleaveEvenBlocks(d, a.v, b.v), i / B % 2 ? b[i - B] : a[i])
SW2(tInterleaveOddBlocks, (NBY > 16), InterleaveOddBlocks(d, a.v, b.v), i / B % 2 ? b[i] : a[i + B])
SW1(tReverse, true, Reverse(d, a.v), a[N - 1 - i])
SW1(tReverse2, kN<D> >= 2, Reverse2(d, a.v), a[i ^ 1])
SW1(tReverse4, kN<D> >= 4, Reverse4(d, a.v), a[i ^ 3])
SW1(tReverse8, kN<D> >= 8, Reverse8(d, a.v), a[i ^ 7])
SW1(tReverseBlocksD, true, ReverseBlocks(d, a.v), a[(N / B - 1 - i / B) * B + i % B])
SW1(tShuffle1032, (NBY >= 16), Shuffle1032(a.v), a[i ^ 2])
SW1(tShuffle0321, (NBY >= 16), Shuffle0321(a.v), a[i / 4 * 4 + (i + 1) % 4])
SW1(tShuffle2103, (NBY >= 16), Shuffle2103(a.v), a[i / 4 * 4 + (i + 3) % 4])
SW1(tShuffle2301, (NBY >= 8), Shuffle2301(a.v), a[i ^ 1])
SW1(tShuffle01, (NBY >= 16), Shuffle01(a.v), a[i ^ 1])
SW1(tShuffle0123, (NBY >= 16), Shuffle0123(a.v), a[i ^ 3])
SW1(tSlide1Up, true, Slide1Up(d, a.v), i == 0 ? Z : a[i - 1])
SW1(tSlide1Down, true, Slide1Down(d, a.v), i + 1 < N ? a[i + 1] : Z)
VP_OP(tSlideLanes) { Sym<D> a("a"); size_t k = vp_any<size_t>("amount"); vp_assume(k < N); vp_split(&k, 1, 8, 0, N); Ref<D> u, w; VP_LANES { u[i] = Z; w[i] = Z; for (size_t j = 0; j <= i; j++) if (k == j) u[i] = a[i - j]; for (size_t j = 0; i + j < N; j++) if (k == j) w[i] = a[i + j]; } Expect(d, SlideUpLanes(d, a.v, k), u, "SlideUpLanes"); Expect(d, SlideDownLanes(d, a.v, k), w, "SlideDownLanes"); }
VP_OPIF(tZip, sizeof(TFromD<D>) <= 4 && (kN<D> > 1)) { const RepartitionToWide<D> dw; using TW = TFromD<decltype(dw)>; constexpr size_t B = kB<D>; Sym<D> a("a"), b("b"); Ref<RepartitionToWide<D>> lo, up; for (size_t i = 0; i < N / 2; i++) { const size_t s = i / (B / 2) * B + i % (B / 2);
    auto two = [](T x, T y) { return static_cast<TW>(static_cast<MakeUnsigned<TW>>(static_cast<MakeUnsigned<TW>>(Bits(y)) << (sizeof(T) * 8)) | Bits(x)); }; lo[i] = two(a[s], b[s]); up[i] = two(a[s + B / 2], b[s + B / 2]); }
  Expect(dw, ZipLower(dw, a.v, b.v), lo, "ZipLower"); Expect(dw, ZipLower(a.v, b.v), lo, "ZipLower(no d)"); NOTSCALAR(Expect(dw, ZipUpper(dw, a.v, b.v), up, "ZipUpper");) }
// shifts of blocks by bytes
template <class D, int K, int E> struct SB { static void go(D d, const Sym<D>& a, const Sym<D>& b) { using T = TFromD<D>; constexpr size_t NB = kN<D>, B = kB<D>; Ref<D> l, r, c; for (size_t i = 0; i < NB; i++) { const size_t q = i / B * B, k = i % B; l[i] = k < K ? T(0) : a[q + k - K]; r[i] = k + K < B ? a[q + k + K] : T(0); c[i] = k + K < B ? b[q + k + K] : a[q + (k + K < B ? 0 : k + K - B)]; }
    Expect(d, ShiftLeftBytes<K>(d, a.v), l, "ShiftLeftBytes"); Expect(d, ShiftLeftBytes<K>(a.v), l, "ShiftLeftBytes(no d)"); Expect(d, ShiftRightBytes<K>(d, a.v), r, "ShiftRightBytes"); Expect(d, CombineShiftRightBytes<K>(d, a.v, b.v), c, "CombineShiftRightBytes"); SB<D, K + 1, E>::go(d, a, b); } };
template <class D, int E> struct SB<D, E, E> { static void go(D, const Sym<D>&, const Sym<D>&) {} };
VP_OPIF(tShiftBytes, sizeof(TFromD<D>) == 1 && (kN<D> > 1)) { Sym<D> a("hi"), b("lo"); SB<D, 1, int(kB<D>)>::go(d, a, b); }
template <class D, int K, int E> struct SL { static void go(D d, const Sym<D>& a, const Sym<D>& b) { using T = TFromD<D>; constexpr size_t NB = kN<D>, B = kB<D>; Ref<D> l, r, c; for (size_t i = 0; i < NB; i++) { const size_t q = i / B * B, k = i % B; l[i] = k < K ? FromBits<T>(0) : a[q + k - K]; r[i] = k + K < B ? a[q + k + K] : FromBits<T>(0); c[i] = k + K < B ? b[q + k + K] : a[q + (k + K < B ? 0 : k + K - B)]; }
    Expect(d, ShiftLeftLanes<K>(d, a.v), l, "ShiftLeftLanes"); Expect(d, ShiftLeftLanes<K>(a.v), l, "ShiftLeftLanes(no d)"); Expect(d, ShiftRightLanes<K>(d, a.v), r, "ShiftRightLanes"); Expect(d, CombineShiftRightLanes<K>(d, a.v, b.v), c, "CombineShiftRightLanes"); SL<D, K + 1, E>::go(d, a, b); } };
template <class D, int E> struct SL<D, E, E> { static void go(D, const Sym<D>&, const Sym<D>&) {} };
VP_OPIF(tShiftLanes, (kN<D> > 1)) { Sym<D> a("hi"), b("lo"); SL<D, 1, int(kB<D>)>::go(d, a, b); }
// ---- table lookups
template <class D> struct Idx { using TI = MakeSigned<TFromD<D>>; static constexpr size_t n = kN<D>; TI l[kRawN<D>]; size_t k[n];
  Idx(size_t lim) { vp_sym(l, sizeof(l), sizeof(TI), "idx"); for (size_t i = 0; i < n; i++) { k[i] = static_cast<size_t>(static_cast<MakeUnsigned<TI>>(l[i])); vp_assume(k[i] < lim); } } };
VP_OP(tTableLookupLanes) { const RebindToSigned<D> di; Sym<D> a("a"); Idx<D> ix(N); Ref<D> e; VP_LANES e[i] = Pick(a.l, N, ix.k[i]); Vec<decltype(di)> vi; memcpy(static_cast<void*>(&vi), ix.l, sizeof(vi)); Expect(d, TableLookupLanes(a.v, SetTableIndices(d, ix.l)), e, "TableLookupLanes(SetTableIndices)"); Expect(d, TableLookupLanes(a.v, IndicesFromVec(d, vi)), e, "TableLookupLanes(IndicesFromVec)"); }
VP_OP(tTwoTablesLookupLanes) { const RebindToSigned<D> di; Sym<D> a("a"), b("b"); T t[2 * N]; for (size_t i = 0; i < N; i++) { t[i] = a[i]; t[N + i] = b[i]; } Idx<D> ix(2 * N); Ref<D> e; VP_LANES e[i] = Pick(t, 2 * N, ix.k[i]); Vec<decltype(di)> vi; memcpy(static_cast<void*>(&vi), ix.l, sizeof(vi)); Expect(d, TwoTablesLookupLanes(d, a.v, b.v, SetTableIndices(d, ix.l)), e, "TwoTablesLookupLanes(d)"); Expect(d, TwoTablesLookupLanes(a.v, b.v, IndicesFromVec(d, vi)), e, "TwoTablesLookupLanes"); }
// table of a partial or full vector, indices of a vector of the same size
VP_OPIF(tTableLookupBytes, sizeof(TFromD<D>) == 1) { constexpr size_t B = kB<D>; Sym<D> a("a"); Sym<D> ix("idx"); VP_LANES vp_assume(Bits(ix[i]) < B); Ref<D> e; VP_LANES e[i] = Pick(a.l + i / B * B, B, Bits(ix[i])); Expect(d, TableLookupBytes(a.v, ix.v), e, "TableLookupBytes"); Expect(d, TableLookupBytesOr0(a.v, ix.v), e, "TableLookupBytesOr0: in range"); }
VP_OPIF(tTableLookupBytesOr0, sizeof(TFromD<D>) == 1) { constexpr size_t B = kB<D>; Sym<D> a("a"); Sym<D> ix("idx"); VP_LANES vp_assume(Bits(ix[i]) < B || Bits(ix[i]) >= 0x80); Ref<D> e; VP_LANES e[i] = Bits(ix[i]) >= 0x80 ? T(0) : Pick(a.l + i / B * B, B, Bits(ix[i])); Expect(d, TableLookupBytesOr0(a.v, ix.v), e, "TableLookupBytesOr0"); }
// full 128-bit table, partial index vector of any type
VP_OPIF(tTableLookupBytesMixed, NBY <= 16) { using D8 = FixedTag<uint8_t, HWY_TARGET == HWY_SCALAR ? 1 : 16>; constexpr size_t L = kN<D8>; const D8 d8; Sym<D8> a("table"); Sym<D> ix("idx"); uint8_t k[NBY], o[NBY], e[NBY]; memcpy(k, ix.l, sizeof(k)); for (size_t i = 0; i < NBY; i++) { vp_assume(k[i] < L); e[i] = Pick(a.l, L, k[i]); } auto r = TableLookupBytes(a.v, ix.v); memcpy(o, &r, sizeof(o)); vp_eq(o, e, NBY, 1, "TableLookupBytes: 128-bit table, smaller index vector"); }
VP_OPIF(tBitShuffle, sizeof(TFromD<D>) == 8) { using DI = Repartition<uint8_t, D>; Sym<D> a("a"); Sym<DI> ix("idx"); for (size_t i = 0; i < 8 * N; i++) vp_assume(ix[i] < 64); vp_split(ix.l, 8 * N, 1, 0, 64); uint64_t o[N]; const auto r = BitShuffle(a.v, ix.v); memcpy(o, &r, sizeof(o));
  VP_LANES { vp_check(o[i] < 256, "BitShuffle: upper bits zero"); for (size_t j = 0; j < 8; j++) { bool e = false; for (size_t s = 0; s < 64; s++) e = ix[i * 8 + j] == s ? (Bits(a[i]) >> s) & 1 : e; vp_check(((o[i] >> j) & 1) == (e ? 1u : 0u), "BitShuffle"); } } }
template <class D, size_t K> struct P4 { static void go(D d, const Sym<D>& a) { constexpr size_t n = kN<D>; constexpr size_t x[4] = {K & 3, (K >> 2) & 3, (K >> 4) & 3, (K >> 6) & 3}; TFromD<D> o[n], e[n]; const auto r = Per4LaneBlockShuffle<x[3], x[2], x[1], x[0]>(a.v); memcpy(o, &r, sizeof(o)); for (size_t i = 0; i < n; i++) { const size_t s = i / 4 * 4 + x[i % 4]; e[i] = s < n ? a[s < n ? s : 0] : o[i]; } vp_eq(o, e, n, sizeof(e[0]), "Per4LaneBlockShuffle"); } };
template <class D, size_t... K> static void AllP4(D d, const Sym<D>& a, std::index_sequence<K...>) { int x[] = {(P4<D, K>::go(d, a), 0)...}; (void)x; }
VP_OP(tPer4LaneBlockShuffle) { Sym<D> a("a"); AllP4(d, a, std::make_index_sequence<256>()); }
// ---- tuples and casts
VP_OP(tTuples) { Sym<D> a("a"), b("b"), c("c"), q("q"); Ref<D> e[4]; VP_LANES { e[0][i] = a[i]; e[1][i] = b[i]; e[2][i] = c[i]; e[3][i] = q[i]; }
  const auto t2 = Create2(d, a.v, b.v); Expect(d, Get2<0>(t2), e[0], "Get2<0>"); Expect(d, Get2<1>(t2), e[1], "Get2<1>"); const auto t3 = Create3(d, a.v, b.v, c.v); Expect(d, Get3<0>(t3), e[0], "Get3<0>"); Expect(d, Get3<1>(t3), e[1], "Get3<1>"); Expect(d, Get3<2>(t3), e[2], "Get3<2>");
  const auto t4 = Create4(d, a.v, b.v, c.v, q.v); Expect(d, Get4<0>(t4), e[0], "Get4<0>"); Expect(d, Get4<1>(t4), e[1], "Get4<1>"); Expect(d, Get4<2>(t4), e[2], "Get4<2>"); Expect(d, Get4<3>(t4), e[3], "Get4<3>");
  const auto s4 = Set4<2>(t4, a.v); Expect(d, Get4<2>(s4), e[0], "Set4"); Expect(d, Get4<3>(s4), e[3], "Set4 keeps others"); const auto s3 = Set3<1>(t3, a.v); Expect(d, Get3<1>(s3), e[0], "Set3"); Expect(d, Get3<2>(s3), e[2], "Set3 keeps others"); const auto s2 = Set2<0>(t2, b.v); Expect(d, Get2<0>(s2), e[1], "Set2"); Expect(d, Get2<1>(s2), e[1], "Set2 keeps others"); }
template <class TO, class D> static void CastTo(D d, const Sym<D>& a) { const Repartition<TO, D> dt; uint8_t o[sizeof(TFromD<D>) * kN<D>], e[sizeof(o)]; const auto r = BitCast(dt, a.v); memcpy(o, &r, sizeof(o)); memcpy(e, a.l, sizeof(e)); vp_eq(o, e, sizeof(o), 1, "BitCast"); }
VP_OP(tBitCast) { Sym<D> a("a"); if constexpr (HWY_TARGET == HWY_SCALAR) { CastTo<MakeUnsigned<T>>(d, a); CastTo<MakeSigned<T>>(d, a); CastTo<T>(d, a); if constexpr (sizeof(T) >= 4) CastTo<MakeFloat<T>>(d, a); } else { CastTo<uint8_t>(d, a); CastTo<MakeSigned<T>>(d, a); CastTo<MakeUnsigned<T>>(d, a); if constexpr (NBY >= 2) CastTo<uint16_t>(d, a); if constexpr (NBY >= 4) { CastTo<int32_t>(d, a); CastTo<float>(d, a); } if constexpr (NBY >= 8) { CastTo<uint64_t>(d, a); CastTo<double>(d, a); } } }
VP_OP(tResizeBitCast) { Sym<D> a("a"); const RebindToUnsigned<D> du; Expect(du, ResizeBitCast(du, a.v), *[&] { static Ref<RebindToUnsigned<D>> e; VP_LANES e[i] = Bits(a[i]); return &e; }(), "ResizeBitCast"); if constexpr (N > 1) { const Half<D> dh; Ref<Half<D>> e; for (size_t i = 0; i < N / 2; i++) e[i] = a[i]; Expect(dh, ResizeBitCast(dh, a.v), e, "ResizeBitCast: narrower"); Sym<Half<D>> h("h"); Ref<D> z; VP_LANES z[i] = i < N / 2 ? h[i < N / 2 ? i : 0] : Z; Expect(d, ZeroExtendResizeBitCast(d, dh, h.v), z, "ZeroExtendResizeBitCast"); } }
using L32 = TL<uint32_t, int32_t, float>; using L64 = TL<uint64_t, int64_t, double>; using LU64I = TL<uint64_t, int64_t>; using L8 = TL<uint8_t, int8_t>;
void Main() {
  REG(tZero, LALL); REG(tSet, LALL); REG(tSignBit, LALL); REG(tIota, LUI); REG(tMaskedSet, LALL); REG(tDup128VecFromValues, LALL); REG(tGetLane, LALL); REG(tExtractLane, LALL); REG(tInsertLane, LALL);
  REG(tOddEven, LALL); REG(tDupEven, LALL); REG(tReverse, LALL); REG(tReverseBlocksD, LALL); REG(tOddEvenBlocks, LALL); REG(tSlide1Up, LALL); REG(tSlide1Down, LALL); REG(tSlideLanes, LALL); REG(tBroadcast, LALL); REG(tBroadcastLane, LALL); REG(tBlocks, LALL); REG(tTableLookupLanes, LALL); REG(tTwoTablesLookupLanes, LALL); REG(tTuples, LALL); REG(tBitCast, LALL); REG(tResizeBitCast, LALL); REG(tPer4LaneBlockShuffle, LALL); NOTSCALAR(REG(tBitShuffle, LU64I);)
#if HWY_TARGET != HWY_SCALAR
  REG(tLowerHalf, LALL); REG(tUpperHalf, LALL); REG(tZeroExtendVector, LALL); REG(tCombine, LALL); REG(tConcatLowerLower, LALL); REG(tConcatUpperUpper, LALL); REG(tConcatLowerUpper, LALL); REG(tConcatUpperLower, LALL); REG(tConcatOdd, LALL); REG(tConcatEven, LALL); REG(tInterleaveWholeLower, LALL); REG(tInterleaveWholeLower1, LALL); REG(tInterleaveWholeUpper, LALL);
  REG(tInterleaveLower, LALL); REG(tInterleaveLower1, LALL); REG(tInterleaveUpper, LALL); REG(tInterleaveEven, LALL); REG(tInterleaveEven1, LALL); REG(tInterleaveOdd, LALL); REG(tDupOdd, LALL); REG(tSwapAdjacentBlocks, LALL); REG(tInterleaveEvenBlocks, LALL); REG(tInterleaveOddBlocks, LALL);
  REG(tReverse2, LALL); REG(tReverse4, LALL); REG(tReverse8, LALL); REG(tShuffle1032, L32); REG(tShuffle0321, L32); REG(tShuffle2103, L32); REG(tShuffle2301, L32); REG(tShuffle01, L64); REG(tShuffle0123, L32); REG(tZip, LUI81632); REG(tShiftBytes, L8); REG(tShiftLanes, LALL);
  REG(tTableLookupBytes, L8); REG(tTableLookupBytesOr0, L8); REG(tTableLookupBytesMixed, LUI);
#endif
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
