// C02: bitwise logic, shifts, rotates and bit counting
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
#define U_(x) (Bits(x))
#define BINB(NAME, CALL, SPEC) VP_OP(NAME) { using TU = MakeUnsigned<T>; Sym<D> a("a"), b("b"); Ref<D> e; VP_LANES { const TU x = Bits(a[i]), y = Bits(b[i]); (void)y; e[i] = FromBits<T>(static_cast<TU>(SPEC)); } Expect(d, CALL, e, #NAME); }
#define TRIB(NAME, CALL, SPEC) VP_OP(NAME) { using TU = MakeUnsigned<T>; Sym<D> a("a"), b("b"), c("c"); Ref<D> e; VP_LANES { const TU x = Bits(a[i]), y = Bits(b[i]), z = Bits(c[i]); e[i] = FromBits<T>(static_cast<TU>(SPEC)); } Expect(d, CALL, e, #NAME); }
BINB(tAnd, And(a.v, b.v), x & y)
BINB(tOr, Or(a.v, b.v), x | y)
BINB(tXor, Xor(a.v, b.v), x ^ y)
BINB(tAndNot, AndNot(a.v, b.v), ~x & y)
BINB(tNot, Not(a.v), (void(b), ~x))
BINB(tOpAnd, (a.v & b.v), x & y)
BINB(tOpOr, (a.v | b.v), x | y)
BINB(tOpXor, (a.v ^ b.v), x ^ y)
TRIB(tOr3, Or3(a.v, b.v, c.v), x | y | z)
TRIB(tXor3, Xor3(a.v, b.v, c.v), x ^ y ^ z)
TRIB(tOrAnd, OrAnd(a.v, b.v, c.v), x | (y & z))
TRIB(tBitwiseIfThenElse, BitwiseIfThenElse(a.v, b.v, c.v), (x & y) | (~x & z))
VP_OP(tPopulationCount) { Sym<D> a("a"); Ref<D> e; VP_LANES { int c = 0; for (size_t b = 0; b < sizeof(T) * 8; b++) c += int((Bits(a[i]) >> b) & 1); e[i] = static_cast<T>(c); } Expect(d, PopulationCount(a.v), e, "PopulationCount"); }
template <class T> static inline T Lzc(T x) { int c = 0; bool seen = false; for (size_t b = sizeof(T) * 8; b-- > 0;) { seen = seen | (((Bits(x) >> b) & 1) != 0); c += seen ? 0 : 1; } return static_cast<T>(c); }
template <class T> static inline T Tzc(T x) { int c = 0; bool seen = false; for (size_t b = 0; b < sizeof(T) * 8; b++) { seen = seen | (((Bits(x) >> b) & 1) != 0); c += seen ? 0 : 1; } return static_cast<T>(c); }
VP_OP(tLeadingZeroCount) { Sym<D> a("a"); vp_split(a.l, N, sizeof(T), 1, 0); Ref<D> e; VP_LANES e[i] = Lzc(a[i]); Expect(d, LeadingZeroCount(a.v), e, "LeadingZeroCount"); }
VP_OP(tMaskedLeadingZeroCount) { Sym<D> a("a"); vp_split(a.l, N, sizeof(T), 1, 0); SymM<D> m("m"); Ref<D> e; VP_LANES e[i] = m[i] ? Lzc(a[i]) : T(0); Expect(d, MaskedLeadingZeroCount(m.m, a.v), e, "MaskedLeadingZeroCount"); }
VP_OP(tTrailingZeroCount) { Sym<D> a("a"); vp_split(a.l, N, sizeof(T), 2, 0); Ref<D> e; VP_LANES e[i] = Tzc(a[i]); Expect(d, TrailingZeroCount(a.v), e, "TrailingZeroCount"); }
VP_OP(tHighestSetBitIndex) { Sym<D> a("a"); vp_split(a.l, N, sizeof(T), 1, 0); auto r = HighestSetBitIndex(a.v); T o[N]; memcpy(o, &r, sizeof(o)); Ref<D> e; VP_LANES { e[i] = static_cast<T>(sizeof(T) * 8 - 1 - Lzc(a[i])); if (Bits(a[i]) == 0) { vp_check((Bits(o[i]) >> (sizeof(T) * 8 - 1)) == 1, "HighestSetBitIndex(0) is negative/huge"); o[i] = e[i]; } } vp_eq(o, e.l, N, sizeof(T), "HighestSetBitIndex"); }
VP_OP(tAllBits) { Sym<D> a("a"); bool all1 = true, all0 = true; VP_LANES { all1 &= Bits(a[i]) == Bits(AllOnes<T>()); all0 &= Bits(a[i]) == 0; } ExpectS<bool>(AllBits1(d, a.v), all1, "AllBits1"); ExpectS<bool>(AllBits0(d, a.v), all0, "AllBits0"); }
VP_OP(tReverseBits) { Sym<D> a("a"); Ref<D> e; VP_LANES { using TU = MakeUnsigned<T>; TU r = 0; for (size_t b = 0; b < sizeof(T) * 8; b++) r = static_cast<TU>(r | (((Bits(a[i]) >> b) & 1) << (sizeof(T) * 8 - 1 - b))); e[i] = FromBits<T>(r); } Expect(d, ReverseBits(a.v), e, "ReverseBits"); }
VP_OP(tReverseLaneBytes) { Sym<D> a("a"); Ref<D> e; VP_LANES { using TU = MakeUnsigned<T>; TU r = 0; for (size_t b = 0; b < sizeof(T); b++) r = static_cast<TU>(r | (((Bits(a[i]) >> (8 * b)) & 0xFF) << (8 * (sizeof(T) - 1 - b)))); e[i] = FromBits<T>(r); } Expect(d, ReverseLaneBytes(a.v), e, "ReverseLaneBytes"); }
// ---- shifts
template <class T> static inline T Shl(T a, unsigned s) { return static_cast<T>(static_cast<MakeUnsigned<T>>(static_cast<uint64_t>(Bits(a)) << s)); }
template <class T> static inline T Sar(T a, unsigned s) { return static_cast<T>(a >> s); }
template <class T> static inline T Rsr(T a, unsigned s) { return s == 0 ? a : static_cast<T>((static_cast<W<T>>(a >> (s - 1)) + 1) >> 1); }
template <class T> static inline T RolS(T a, unsigned s) { using TU = MakeUnsigned<T>; const unsigned n = sizeof(T) * 8; s &= n - 1; return FromBits<T>(static_cast<TU>((uint64_t(Bits(a)) << s) | (uint64_t(Bits(a)) >> ((n - s) & (n - 1))))); }
template <class D, int S, int N> struct ShiftAll {
  static void go(D d) {
    using T = TFromD<D>; constexpr size_t L = kN<D>; Sym<D> a("a"); Ref<D> l, r, q, rl, rr; 
    for (size_t i = 0; i < L; i++) { l[i] = Shl(a[i], S); r[i] = Sar(a[i], S); q[i] = Rsr(a[i], S); rl[i] = RolS(a[i], S); rr[i] = RolS(a[i], (sizeof(T) * 8 - S) % (sizeof(T) * 8)); }
    Expect(d, ShiftLeft<S>(a.v), l, "ShiftLeft"); Expect(d, ShiftRight<S>(a.v), r, "ShiftRight"); Expect(d, RoundingShiftRight<S>(a.v), q, "RoundingShiftRight");
    Expect(d, RotateLeft<S>(a.v), rl, "RotateLeft"); Expect(d, RotateRight<S>(a.v), rr, "RotateRight");
    ShiftAll<D, S + 1, N>::go(d);
  }
};
template <class D, int N> struct ShiftAll<D, N, N> { static void go(D) {} };
VP_OP(tShiftConst) { ShiftAll<D, 0, int(sizeof(T) * 8)>::go(d); }
VP_OP(tMaskedShiftConst) { Sym<D> a("a"), no("no"); SymM<D> m("m"); constexpr int S = int(sizeof(T) * 4 + 1); Ref<D> l, r, o; VP_LANES { l[i] = m[i] ? Shl(a[i], S) : T(0); r[i] = m[i] ? Sar(a[i], S) : T(0); o[i] = m[i] ? Sar(a[i], S) : no[i]; }
  Expect(d, MaskedShiftLeft<S>(m.m, a.v), l, "MaskedShiftLeft"); Expect(d, MaskedShiftRight<S>(m.m, a.v), r, "MaskedShiftRight"); Expect(d, MaskedShiftRightOr<S>(no.v, m.m, a.v), o, "MaskedShiftRightOr"); }
VP_OP(tShiftSame) { Sym<D> a("a"); int s; vp_sym(&s, 4, 4, "bits"); vp_assume(s >= 0 && s < int(sizeof(T) * 8)); vp_split(&s, 1, 4, 0, sizeof(T) * 8); Ref<D> l, r, q; VP_LANES { l[i] = Shl(a[i], unsigned(s)); r[i] = Sar(a[i], unsigned(s)); q[i] = Rsr(a[i], unsigned(s)); }
  Expect(d, ShiftLeftSame(a.v, s), l, "ShiftLeftSame"); Expect(d, ShiftRightSame(a.v, s), r, "ShiftRightSame"); Expect(d, RoundingShiftRightSame(a.v, s), q, "RoundingShiftRightSame"); }
VP_OP(tRotateSame) { Sym<D> a("a"); int s; vp_sym(&s, 4, 4, "bits"); vp_assume(s >= 0 && s < int(sizeof(T) * 8)); vp_split(&s, 1, 4, 0, sizeof(T) * 8); const unsigned n = sizeof(T) * 8; Ref<D> l, r; VP_LANES { l[i] = RolS(a[i], unsigned(s)); r[i] = RolS(a[i], (n - unsigned(s)) & (n - 1)); }
  Expect(d, RotateLeftSame(a.v, s), l, "RotateLeftSame"); Expect(d, RotateRightSame(a.v, s), r, "RotateRightSame"); }
VP_OP(tShiftVar) { Sym<D> a("a"), b("b"); vp_split(b.l, N, sizeof(T), 0, sizeof(T) * 8); Ref<D> l, r; VP_LANES { vp_assume(Bits(b[i]) < sizeof(T) * 8); l[i] = Shl(a[i], unsigned(b[i])); r[i] = Sar(a[i], unsigned(b[i])); } Expect(d, HWY_NAMESPACE::Shl(a.v, b.v), l, "Shl"); Expect(d, Shr(a.v, b.v), r, "Shr"); Expect(d, (a.v << b.v), l, "operator<<"); Expect(d, (a.v >> b.v), r, "operator>>"); }
VP_OP(tRoundingShr) { Sym<D> a("a"), b("b"); vp_split(b.l, N, sizeof(T), 0, sizeof(T) * 8); Ref<D> q; VP_LANES { vp_assume(Bits(b[i]) < sizeof(T) * 8); q[i] = Rsr(a[i], unsigned(b[i])); } Expect(d, RoundingShr(a.v, b.v), q, "RoundingShr"); }
VP_OP(tRolRor) { Sym<D> a("a"), b("b"); vp_split(b.l, N, sizeof(T), 0, sizeof(T) * 8); Ref<D> l, r; const unsigned n = sizeof(T) * 8; VP_LANES { unsigned s = unsigned(b[i]) & (n - 1); l[i] = RolS(a[i], s); r[i] = RolS(a[i], (n - s) & (n - 1)); } Expect(d, Rol(a.v, b.v), l, "Rol"); Expect(d, Ror(a.v, b.v), r, "Ror"); }
VP_OP(tMaskedShrOr) { Sym<D> a("a"), b("b"), no("no"); vp_split(b.l, N, sizeof(T), 0, sizeof(T) * 8); SymM<D> m("m"); Ref<D> r; VP_LANES { vp_assume(Bits(b[i]) < sizeof(T) * 8); r[i] = m[i] ? Sar(a[i], unsigned(b[i])) : no[i]; } Expect(d, MaskedShrOr(no.v, m.m, a.v, b.v), r, "MaskedShrOr"); }
VP_OP(tBroadcastSignBit) { Sym<D> a("a"); Ref<D> e; VP_LANES e[i] = FromBits<T>(static_cast<MakeUnsigned<T>>((Bits(a[i]) >> (sizeof(T) * 8 - 1)) ? ~MakeUnsigned<T>(0) : 0)); Expect(d, BroadcastSignBit(a.v), e, "BroadcastSignBit"); }
NOTSCALAR(VP_OP(tMultiRotateRight) { Repartition<uint8_t, D> d8; Sym<D> a("a"); Sym<decltype(d8)> x("x"); vp_split(x.l, 8 * N, 1, 0, 64); Ref<D> e; VP_LANES { uint64_t r = 0, v = Bits(a[i]); for (size_t j = 0; j < 8; j++) { unsigned s = x[8 * i + j]; vp_assume(s < 64); r |= (((v >> s) | (v << ((64 - s) & 63))) & 0xFF) << (8 * j); } e[i] = FromBits<T>(r); } Expect(d, MultiRotateRight(a.v, x.v), e, "MultiRotateRight"); })
void Main() {
  REG(tAnd, LALL); REG(tOr, LALL); REG(tXor, LALL); REG(tAndNot, LALL); REG(tNot, LALL); REG(tOr3, LUI); REG(tXor3, LUI); REG(tOrAnd, LUI); REG(tBitwiseIfThenElse, LUI); NOTSCALAR(REG(tOpAnd, LUI); REG(tOpOr, LUI); REG(tOpXor, LUI);)
  REG(tPopulationCount, LU); REG(tLeadingZeroCount, LUI); REG(tMaskedLeadingZeroCount, LUI); REG(tTrailingZeroCount, LUI); REG(tHighestSetBitIndex, LUI); REG(tAllBits, LUI); REG(tReverseBits, LUI); REG(tReverseLaneBytes, LUI163264);
  REG(tShiftConst, LUI); REG(tMaskedShiftConst, LUI); REG(tShiftSame, LUI); REG(tRotateSame, LUI); REG(tShiftVar, LUI); REG(tRoundingShr, LUI); REG(tRolRor, LUI); REG(tMaskedShrOr, LUI); REG(tBroadcastSignBit, LI);
#if HWY_TARGET != HWY_SCALAR
  REGMIN(tMultiRotateRight, TL<uint64_t>, 8); REGMIN(tMultiRotateRight, TL<int64_t>, 8);
#endif
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
