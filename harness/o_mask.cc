// C03: masks and comparisons
#define VP_SMALL_SIZES 1
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
#define CMP(NAME, OP, FN, MFN) VP_OP(NAME) { Sym<D> a("a"), b("b"); SymM<D> m("m"); bool e[N], f[N]; VP_LANES { e[i] = a[i] OP b[i]; f[i] = m[i] & e[i]; } ExpectM(d, FN(a.v, b.v), e, #FN); NOTSCALAR(ExpectM(d, (a.v OP b.v), e, "operator" #OP);) ExpectM(d, MFN(m.m, a.v, b.v), f, #MFN); }
CMP(tEq, ==, Eq, MaskedEq)
CMP(tNe, !=, Ne, MaskedNe)
CMP(tLt, <, Lt, MaskedLt)
CMP(tGt, >, Gt, MaskedGt)
CMP(tLe, <=, Le, MaskedLe)
CMP(tGe, >=, Ge, MaskedGe)
VP_OP(tIsNegative) { Sym<D> a("a"); bool e[N]; VP_LANES e[i] = (Bits(a[i]) >> (sizeof(T) * 8 - 1)) != 0; ExpectM(d, IsNegative(a.v), e, "IsNegative"); }
VP_OP(tTestBit) { Sym<D> a("a"), b("b"); bool e[N]; VP_LANES { using TU = MakeUnsigned<T>; const TU x = Bits(b[i]); vp_assume(x != 0 && static_cast<TU>(x & (x - 1)) == 0); e[i] = (Bits(a[i]) & x) != 0; } ExpectM(d, TestBit(a.v, b.v), e, "TestBit"); }
using u128t = unsigned __int128;
NOTSCALAR(VP_OP(tCmp128) { Sym<D> a("a"), b("b"); bool lt[N], ltu[N], eq[N], ne[N], equ[N], neu[N]; for (size_t i = 0; i < N; i += 2) { u128t x = (u128t(a[i + 1]) << 64) | a[i], y = (u128t(b[i + 1]) << 64) | b[i]; lt[i] = lt[i + 1] = x < y; ltu[i] = ltu[i + 1] = a[i + 1] < b[i + 1]; eq[i] = eq[i + 1] = x == y; ne[i] = ne[i + 1] = x != y; equ[i] = equ[i + 1] = a[i + 1] == b[i + 1]; neu[i] = neu[i + 1] = a[i + 1] != b[i + 1]; }
  ExpectM(d, Lt128(d, a.v, b.v), lt, "Lt128"); ExpectM(d, Lt128Upper(d, a.v, b.v), ltu, "Lt128Upper"); ExpectM(d, Eq128(d, a.v, b.v), eq, "Eq128"); ExpectM(d, Ne128(d, a.v, b.v), ne, "Ne128"); ExpectM(d, Eq128Upper(d, a.v, b.v), equ, "Eq128Upper"); ExpectM(d, Ne128Upper(d, a.v, b.v), neu, "Ne128Upper"); })
// ---- create
VP_OP(tFirstN) { size_t n; vp_sym(&n, 8, 8, "n"); vp_assume(n <= static_cast<size_t>(LimitsMax<SignedFromSize<(sizeof(T) < 8 ? sizeof(T) : 8)>>())); bool e[N]; VP_LANES e[i] = i < n; ExpectM(d, FirstN(d, n), e, "FirstN"); }
VP_OP(tMaskFromVec) { SymM<D> m("m"); T raw[kRawN<D>]; Vec<D> v; for (size_t i = 0; i < kRawN<D>; i++) raw[i] = FromBits<T>(i < N && m[i] ? static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0)) : MakeUnsigned<T>(0)); memcpy(static_cast<void*>(&v), raw, sizeof(raw)); ExpectM(d, MaskFromVec(v), m.l, "MaskFromVec"); Ref<D> e; VP_LANES e[i] = raw[i]; Expect(d, VecFromMask(d, m.m), e, "VecFromMask"); }
VP_OP(tLoadMaskBits) { uint8_t p[8]; vp_sym(p, 8, 1, "p"); bool e[N]; VP_LANES e[i] = (p[i / 8] >> (i % 8)) & 1; auto m = LoadMaskBits(d, p); ExpectM(d, m, e, "LoadMaskBits"); NOTSCALAR(uint64_t x = 0; VP_LANES x |= uint64_t(e[i]) << i; ExpectS<uint64_t>(BitsFromMask(d, m), x, "unused bits are zero");) }
VP_OP(tBitsFromMask) { SymM<D> m("m"); uint64_t x = 0; VP_LANES x |= uint64_t(m[i]) << i; ExpectS<uint64_t>(BitsFromMask(d, m.m), x, "BitsFromMask"); }
VP_OP(tStoreMaskBits) { SymM<D> m("m"); uint8_t p[9]; vp_sym(p, 9, 1, "p"); const uint8_t guard = p[8]; const size_t r = StoreMaskBits(d, m.m, p); ExpectS<size_t>(r, (N + 7) / 8, "StoreMaskBits size"); uint8_t o[N], e[N]; VP_LANES { o[i] = (p[i / 8] >> (i % 8)) & 1; e[i] = m[i]; } vp_eq(o, e, N, 1, "StoreMaskBits"); ExpectS<uint8_t>(p[8], guard, "StoreMaskBits writes at most 8 bytes"); }
VP_OP(tMaskFalse) { bool e[N]; VP_LANES e[i] = false; ExpectM(d, MaskFalse(d), e, "MaskFalse"); }
VP_OP(tDup128MaskFromMaskBits) { unsigned b; vp_sym(&b, 4, 4, "b"); bool e[N]; VP_LANES e[i] = (b >> (i & (16 / sizeof(T) - 1))) & 1; ExpectM(d, Dup128MaskFromMaskBits(d, b), e, "Dup128MaskFromMaskBits"); }
// ---- convert
VP_OP(tRebindMask) { SymM<D> m("m"); RebindToSigned<D> di; RebindToUnsigned<D> du; ExpectM(di, RebindMask(di, m.m), m.l, "RebindMask signed"); ExpectM(du, RebindMask(du, m.m), m.l, "RebindMask unsigned"); }
VP_OP(tRebindMaskF) { SymM<D> m("m"); RebindToFloat<D> df; ExpectM(df, RebindMask(df, m.m), m.l, "RebindMask float"); }
template <class TTo, class D, bool ok = (kN<D> * sizeof(TTo) <= HWY_MAX_BYTES)> struct PromM { static void go(D d, const SymM<D>& m) { Rebind<TTo, D> to; ExpectM(to, PromoteMaskTo(to, d, m.m), m.l, "PromoteMaskTo"); } }; template <class TTo, class D> struct PromM<TTo, D, false> { static void go(D, const SymM<D>&) {} };
VP_OP(tPromoteMask8) { SymM<D> m("m"); NOTSCALAR(PromM<int16_t, D>::go(d, m); PromM<uint32_t, D>::go(d, m); PromM<float, D>::go(d, m); PromM<int64_t, D>::go(d, m);) PromM<uint64_t, D>::go(d, m); vp_check(1, "done"); }
VP_OP(tPromoteMask16) { SymM<D> m("m"); NOTSCALAR(PromM<uint32_t, D>::go(d, m); PromM<float, D>::go(d, m);) PromM<int64_t, D>::go(d, m); vp_check(1, "done"); }
VP_OP(tPromoteMask32) { SymM<D> m("m"); NOTSCALAR(PromM<uint64_t, D>::go(d, m);) PromM<double, D>::go(d, m); vp_check(1, "done"); }
template <class TTo, class D> static void DemM(D d, const SymM<D>& m) { Rebind<TTo, D> to; ExpectM(to, DemoteMaskTo(to, d, m.m), m.l, "DemoteMaskTo"); }
VP_OP(tDemoteMask16) { SymM<D> m("m"); DemM<int8_t>(d, m); DemM<uint8_t>(d, m); }
VP_OP(tDemoteMask32) { SymM<D> m("m"); DemM<int8_t>(d, m); DemM<uint16_t>(d, m); }
VP_OP(tDemoteMask64) { SymM<D> m("m"); DemM<uint8_t>(d, m); DemM<int16_t>(d, m); DemM<float>(d, m); }
#if HWY_TARGET != HWY_SCALAR
VP_OP(tOrderedDemote2Masks) { RepartitionToNarrow<D> dn; SymM<D> a("a"), b("b"); bool e[2 * N]; VP_LANES { e[i] = a[i]; e[N + i] = b[i]; } ExpectM(dn, OrderedDemote2MasksTo(dn, d, a.m, b.m), e, "OrderedDemote2MasksTo"); }
VP_OP(tHalfMasks) { Half<D> dh; SymM<D> m("m"); ExpectM(dh, LowerHalfOfMask(dh, m.m), m.l, "LowerHalfOfMask"); ExpectM(dh, UpperHalfOfMask(dh, m.m), m.l + N / 2, "UpperHalfOfMask"); SymM<Half<D>> lo("lo"), hi("hi"); bool e[N]; for (size_t i = 0; i < N / 2; i++) { e[i] = lo[i]; e[N / 2 + i] = hi[i]; } ExpectM(d, CombineMasks(d, hi.m, lo.m), e, "CombineMasks"); }
#endif
VP_OP(tSlideMask1) { SymM<D> m("m"); bool u[N], w[N]; VP_LANES { u[i] = i ? m[i - 1] : false; w[i] = i + 1 < N ? m[i + 1] : false; } ExpectM(d, SlideMask1Up(d, m.m), u, "SlideMask1Up"); ExpectM(d, SlideMask1Down(d, m.m), w, "SlideMask1Down"); }
VP_OP(tSlideMask) { SymM<D> m("m"); size_t k; vp_sym(&k, 8, 8, "k"); vp_assume(k < N); vp_split(&k, 1, 8, 0, N); bool u[N], w[N]; VP_LANES { u[i] = false; w[i] = false; for (size_t j = 0; j < N; j++) { if (j <= i && k == j) u[i] = m[i - j]; if (i + j < N && k == j) w[i] = m[i + j]; } } ExpectM(d, SlideMaskUpLanes(d, m.m, k), u, "SlideMaskUpLanes"); ExpectM(d, SlideMaskDownLanes(d, m.m, k), w, "SlideMaskDownLanes"); }
// ---- test
VP_OP(tTestMask) { SymM<D> m("m"); bool all = true, none = true; size_t cnt = 0; intptr_t first = -1, last = -1; VP_LANES { all &= m[i]; none &= !m[i]; cnt += m[i] ? 1 : 0; last = m[i] ? intptr_t(i) : last; } for (size_t i = N; i-- > 0;) first = m[i] ? intptr_t(i) : first;
  ExpectS<bool>(AllTrue(d, m.m), all, "AllTrue"); ExpectS<bool>(AllFalse(d, m.m), none, "AllFalse"); ExpectS<size_t>(CountTrue(d, m.m), cnt, "CountTrue"); ExpectS<intptr_t>(FindFirstTrue(d, m.m), first, "FindFirstTrue"); ExpectS<intptr_t>(FindLastTrue(d, m.m), last, "FindLastTrue"); }
VP_OP(tFindKnown) { SymM<D> m("m"); bool none = true; intptr_t first = -1, last = -1; VP_LANES { none &= !m[i]; last = m[i] ? intptr_t(i) : last; } for (size_t i = N; i-- > 0;) first = m[i] ? intptr_t(i) : first; vp_assume(!none);
  ExpectS<size_t>(FindKnownFirstTrue(d, m.m), size_t(first), "FindKnownFirstTrue"); ExpectS<size_t>(FindKnownLastTrue(d, m.m), size_t(last), "FindKnownLastTrue"); }
// ---- ternary
VP_OP(tIfThen) { Sym<D> a("a"), b("b"); SymM<D> m("m"); Ref<D> e, z, w; VP_LANES { e[i] = m[i] ? a[i] : b[i]; z[i] = m[i] ? a[i] : FromBits<T>(0); w[i] = m[i] ? FromBits<T>(0) : a[i]; } Expect(d, IfThenElse(m.m, a.v, b.v), e, "IfThenElse"); Expect(d, IfThenElseZero(m.m, a.v), z, "IfThenElseZero"); Expect(d, IfThenZeroElse(m.m, a.v), w, "IfThenZeroElse"); }
VP_OP(tIfVecThenElse) { Sym<D> a("a"), b("b"); SymM<D> m("m"); Ref<D> e; VP_LANES e[i] = m[i] ? a[i] : b[i]; Expect(d, IfVecThenElse(VecFromMask(d, m.m), a.v, b.v), e, "IfVecThenElse"); }
VP_OP(tIfNegativeThen) { Sym<D> a("a"), b("b"), c("c"); Ref<D> e, z, y, g; VP_LANES { const bool n = (Bits(a[i]) >> (sizeof(T) * 8 - 1)) != 0; e[i] = n ? b[i] : c[i]; z[i] = n ? b[i] : FromBits<T>(0); y[i] = n ? FromBits<T>(0) : b[i]; g[i] = z[i]; } Expect(d, IfNegativeThenElse(a.v, b.v, c.v), e, "IfNegativeThenElse"); Expect(d, IfNegativeThenElseZero(a.v, b.v), z, "IfNegativeThenElseZero"); Expect(d, IfNegativeThenZeroElse(a.v, b.v), y, "IfNegativeThenZeroElse"); }
VP_OP(tIfNegativeThenNegOrUndef) { Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { vp_assume(Bits(a[i]) != 0); const bool n = (Bits(a[i]) >> (sizeof(T) * 8 - 1)) != 0; e[i] = n ? static_cast<T>(0 - W<T>(b[i])) : b[i]; } Expect(d, IfNegativeThenNegOrUndefIfZero(a.v, b.v), e, "IfNegativeThenNegOrUndefIfZero"); }
// ---- logical
VP_OP(tMaskLogic) { SymM<D> a("a"), b("b"); bool n[N], x[N], an[N], o[N], xo[N], xn[N]; VP_LANES { n[i] = !a[i]; x[i] = a[i] & b[i]; an[i] = !a[i] & b[i]; o[i] = a[i] | b[i]; xo[i] = a[i] != b[i]; xn[i] = a[i] == b[i]; }
  ExpectM(d, Not(a.m), n, "Not"); ExpectM(d, And(a.m, b.m), x, "And"); ExpectM(d, AndNot(a.m, b.m), an, "AndNot"); ExpectM(d, Or(a.m, b.m), o, "Or"); ExpectM(d, Xor(a.m, b.m), xo, "Xor"); }
VP_OP(tExclusiveNeither) { SymM<D> a("a"), b("b"); bool e[N]; VP_LANES { vp_assume(!(a[i] & b[i])); e[i] = !a[i] & !b[i]; } ExpectM(d, ExclusiveNeither(a.m, b.m), e, "ExclusiveNeither"); }
VP_OP(tSetFirst) { SymM<D> m("m"); bool only[N], before[N], atb[N], ata[N]; bool seen = false; VP_LANES { only[i] = m[i] & !seen; atb[i] = !seen; seen = seen | m[i]; before[i] = !seen; ata[i] = seen; }
  ExpectM(d, SetOnlyFirst(m.m), only, "SetOnlyFirst"); ExpectM(d, SetBeforeFirst(m.m), before, "SetBeforeFirst"); ExpectM(d, SetAtOrBeforeFirst(m.m), atb, "SetAtOrBeforeFirst"); ExpectM(d, SetAtOrAfterFirst(m.m), ata, "SetAtOrAfterFirst"); }
void Main() {
  REG(tEq, LALL); REG(tNe, LALL); REG(tLt, LALL); REG(tGt, LALL); REG(tLe, LALL); REG(tGe, LALL); REG(tIsNegative, LIF); REG(tTestBit, LUI);
  NOTSCALAR(REG1MIN(tCmp128, uint64_t, 16);)
  REG(tFirstN, LALL); REG(tMaskFromVec, LALL); REG(tLoadMaskBits, LALL); REG(tBitsFromMask, LALL); REG(tStoreMaskBits, LALL); REG(tMaskFalse, LALL); REG(tDup128MaskFromMaskBits, LALL);
  REG(tRebindMask, LALL); REG(tRebindMaskF, LUIF3264);
  REG1(tPromoteMask8, uint8_t); REG1(tPromoteMask8, int8_t); REG1(tPromoteMask16, uint16_t); REG1(tPromoteMask16, int16_t); REG1(tPromoteMask32, float); REG1(tPromoteMask32, uint32_t);
  REG1(tDemoteMask16, uint16_t); REG1(tDemoteMask16, int16_t); REG1(tDemoteMask32, int32_t); REG1(tDemoteMask32, float); REG1(tDemoteMask64, int64_t); REG1(tDemoteMask64, double);
#if HWY_TARGET != HWY_SCALAR
  REG(tOrderedDemote2Masks, LUIF163264); REGMIN(tHalfMasks, LALL, 16);
#endif
  REG(tSlideMask1, LALL); REG(tSlideMask, LALL); REG(tTestMask, LALL); REG(tFindKnown, LALL); REG(tIfThen, LALL); REG(tIfVecThenElse, LALL); REG(tIfNegativeThen, LIF); REG(tIfNegativeThenNegOrUndef, LI); REG(tMaskLogic, LALL); REG(tExclusiveNeither, LALL); REG(tSetFirst, LALL);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
