// C10: scalar utilities of base.h, C11: Divisor
#include "vp_hwy.h"
#include "ops_common.h"
#include "hwy/bit_set.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class T> static size_t BitsOf(T x) { size_t c = 0; for (size_t i = 0; i < sizeof(T) * 8; i++) c += (static_cast<MakeUnsigned<T>>(x) >> i) & 1; return c; }
template <class T> static size_t TopBit(T x) { size_t r = 0; for (size_t i = 0; i < sizeof(T) * 8; i++) if ((x >> i) & 1) r = i; return r; }
template <class T> static size_t LowBit(T x) { size_t r = 0; for (size_t i = sizeof(T) * 8; i-- > 0;) if ((x >> i) & 1) r = i; return r; }
template <class T> static void tPopCount() { const T x = vp_any<T>("x"); ExpectS<size_t>(PopCount(x), BitsOf(x), "PopCount"); }
static void tNum0Bits32() { const uint32_t x = vp_any<uint32_t>("x"); vp_assume(x != 0); ExpectS<size_t>(Num0BitsBelowLS1Bit_Nonzero32(x), LowBit(x), "Num0BitsBelowLS1Bit_Nonzero32"); ExpectS<size_t>(Num0BitsAboveMS1Bit_Nonzero32(x), 31 - TopBit(x), "Num0BitsAboveMS1Bit_Nonzero32"); }
static void tNum0Bits64() { const uint64_t x = vp_any<uint64_t>("x"); vp_assume(x != 0); ExpectS<size_t>(Num0BitsBelowLS1Bit_Nonzero64(x), LowBit(x), "Num0BitsBelowLS1Bit_Nonzero64"); ExpectS<size_t>(Num0BitsAboveMS1Bit_Nonzero64(x), 63 - TopBit(x), "Num0BitsAboveMS1Bit_Nonzero64"); }
template <class T> static T WithTop(size_t p) { const T low = vp_any<T>("low"); return static_cast<T>((T(1) << p) | (low & static_cast<T>((T(1) << p) - 1))); }  // any value whose leading one is bit p
template <class T> static void tLog2() { for (size_t p = 0; p < sizeof(T) * 8; p++) { const T x = WithTop<T>(p); ExpectS<size_t>(FloorLog2(x), p, "FloorLog2"); } }
template <class T> static void tCeilLog2() { ExpectS<size_t>(CeilLog2(T(1)), 0, "CeilLog2(1)"); for (size_t p = 0; p < sizeof(T) * 8; p++) { const T y = WithTop<T>(p), x = static_cast<T>(y + 1); if (p + 1 == sizeof(T) * 8) vp_assume(x != 0); ExpectS<size_t>(CeilLog2(x), p + 1, "CeilLog2"); } }
template <class T> static void tScalarShr() { const T x = vp_any<T>("x"); for (int s = 0; s < int(sizeof(T) * 8); s++) { T e = 0; for (int i = 0; i < int(sizeof(T) * 8); i++) { const int k = i + s < int(sizeof(T) * 8) ? i + s : IsSigned<T>() ? int(sizeof(T) * 8) - 1 : -1; const MakeUnsigned<T> b = k < 0 ? 0 : (static_cast<MakeUnsigned<T>>(x) >> k) & 1; e = static_cast<T>(static_cast<MakeUnsigned<T>>(e) | static_cast<MakeUnsigned<T>>(b << i)); } ExpectS<T>(ScalarShr(x, s), e, "ScalarShr"); } }
template <class T> static void tAddWithWraparound() { const T x = vp_any<T>("x"), y = vp_any<T>("y"); using TU = MakeUnsigned<T>; ExpectS<T>(AddWithWraparound(x, y), static_cast<T>(static_cast<TU>(static_cast<TU>(x) + static_cast<TU>(y))), "AddWithWraparound"); }
static void tMul128() { const uint64_t a = vp_any<uint64_t>("a"), b = vp_any<uint64_t>("b"); uint64_t hi; const uint64_t lo = Mul128(a, b, &hi); const unsigned __int128 e = static_cast<unsigned __int128>(a) * b; ExpectS<uint64_t>(lo, static_cast<uint64_t>(e), "Mul128 lower"); ExpectS<uint64_t>(hi, static_cast<uint64_t>(e >> 64), "Mul128 upper");
  int64_t shi; const int64_t slo = Mul128(static_cast<int64_t>(a), static_cast<int64_t>(b), &shi); const __int128 s = static_cast<__int128>(static_cast<int64_t>(a)) * static_cast<int64_t>(b); ExpectS<int64_t>(slo, static_cast<int64_t>(s), "signed Mul128 lower"); ExpectS<int64_t>(shi, static_cast<int64_t>(s >> 64), "signed Mul128 upper"); }
template <class T> static void tScalarAbsI() { const T x = vp_any<T>("x"); ExpectS<T>(ScalarAbs(x), x < 0 ? static_cast<T>(MakeUnsigned<T>(0) - static_cast<MakeUnsigned<T>>(x)) : x, "ScalarAbs"); ExpectS<uint8_t>(ScalarSignBit(x), x < 0, "ScalarSignBit"); ExpectS<uint8_t>(ScalarIsFinite(x), 1, "ScalarIsFinite"); }
template <class T> struct FE { static constexpr int E = sizeof(T) == 8 ? 11 : sizeof(T) == 4 ? 8 : IsSame<T, float16_t>() ? 5 : 8, M = int(sizeof(T)) * 8 - 1 - E; };
template <class T> static void tScalarF() { using TU = MakeUnsigned<T>; const T x = vp_any<T>("x"), y = vp_any<T>("y"); TU u, w; memcpy(&u, &x, sizeof(u)); memcpy(&w, &y, sizeof(w)); constexpr int B = sizeof(T) * 8, E = FE<T>::E, M = FE<T>::M; const TU mant = static_cast<TU>(u & static_cast<TU>((TU(1) << M) - 1)); const unsigned ex = static_cast<unsigned>((u >> M) & ((1u << E) - 1)); const bool top = ex == (1u << E) - 1, neg = (u >> (B - 1)) & 1;
  ExpectS<uint8_t>(ScalarIsNaN(x), top && mant != 0, "ScalarIsNaN"); ExpectS<uint8_t>(ScalarIsInf(x), top && mant == 0, "ScalarIsInf"); ExpectS<uint8_t>(ScalarIsFinite(x), !top, "ScalarIsFinite"); ExpectS<uint8_t>(ScalarSignBit(x), neg, "ScalarSignBit");
  auto r = ScalarAbs(x); TU o; static_assert(sizeof(r) == sizeof(o), ""); memcpy(&o, &r, sizeof(o)); ExpectS<TU>(o, static_cast<TU>(u & static_cast<TU>(~(TU(1) << (B - 1)))), "ScalarAbs"); auto c = ScalarCopySign(x, y); memcpy(&o, &c, sizeof(o)); ExpectS<TU>(o, static_cast<TU>((u & static_cast<TU>(~(TU(1) << (B - 1)))) | (w & static_cast<TU>(TU(1) << (B - 1)))), "ScalarCopySign"); }
// nearest value with 8 exponent and 7 mantissa bits, ties to even, from the bits of a wider format with kE exponent and kM mantissa bits; NaN stays a quiet NaN
template <int kE, int kM> static uint16_t NearestBF16(uint64_t u) {
  const unsigned sign = static_cast<unsigned>(u >> (kE + kM)) & 1; const uint64_t m = u & ((uint64_t(1) << kM) - 1); const int e = int((u >> kM) & ((1u << kE) - 1)); const int bias = (1 << (kE - 1)) - 1;
  if (e == (1 << kE) - 1) return static_cast<uint16_t>((sign << 15) | (m ? 0x7FC0 : 0x7F80));
  const uint64_t s = e ? m | (uint64_t(1) << kM) : m; const int x = (e ? e : 1) - bias;   // value = s * 2^(x - kM)
  int t = x + 127 < 1 ? 1 : x + 127;                                                         // biased exponent of the result's quantum
  const int sh = (kM - 7) + (t - (x + 127)); uint64_t q; if (sh > kM + 2) q = 0; else { const uint64_t half = uint64_t(1) << (sh - 1), rem = s & ((uint64_t(1) << sh) - 1); q = s >> sh; if (rem > half || (rem == half && (q & 1))) q++; }
  if (t >= 255) return static_cast<uint16_t>((sign << 15) | 0x7F80);
  const uint64_t r = (uint64_t(t - 1) << 7) + q; return static_cast<uint16_t>((sign << 15) | (r >= 0x7F80 ? 0x7F80 : r)); }
static bool SameBF(uint16_t r, uint16_t e) { const bool rn = (r & 0x7FFF) > 0x7F80, en = (e & 0x7FFF) > 0x7F80; return rn || en ? rn && en : r == e; }
static void tBF16FromF32() { const uint32_t u = vp_any<uint32_t>("x"); float f; memcpy(&f, &u, 4); const bfloat16_t b = BF16FromF32(f); uint16_t o; memcpy(&o, &b, 2); vp_check(SameBF(o, NearestBF16<8, 23>(u)), "BF16FromF32"); vp_check((o >> 15) == (u >> 31), "BF16FromF32: sign"); }
static void tBF16FromF64() { const uint64_t u = vp_any<uint64_t>("x"); double f; memcpy(&f, &u, 8); vp_assume(f == f); const bfloat16_t b = BF16FromF64(f); uint16_t o; memcpy(&o, &b, 2); vp_check(SameBF(o, NearestBF16<11, 52>(u)), "BF16FromF64"); }
static void tF32FromBF16() { const uint16_t u = vp_any<uint16_t>("x"); vp_assume((u & 0x7FFF) <= 0x7F80); const float f = F32FromBF16(bfloat16_t::FromBits(u)); uint32_t o; memcpy(&o, &f, 4); ExpectS<uint32_t>(o, uint32_t(u) << 16, "F32FromBF16"); const float g = F32FromBF16Mem(&u); memcpy(&o, &g, 4); ExpectS<uint32_t>(o, uint32_t(u) << 16, "F32FromBF16Mem"); }
// Lemmas on natural numbers, proved in proofs/Lemmas.lean; no operation in them wraps.
static void LemmaRound(size_t a, size_t b) { if (vp_native()) return; const size_t c = (a + b - 1) / b, m = c * b; vp_assume(m >= a && m - a < b && m % b == 0 && a % b <= a && a % b < b && (a - a % b) % b == 0); vp_assume(c == a / b + (a % b == 0 ? 0 : 1)); }
static void tRound() { const size_t x = vp_any<size_t>("x"), b = vp_any<size_t>("align"); vp_assume(b != 0 && b <= (size_t(1) << 62) && x <= (size_t(1) << 62)); LemmaRound(x, b); const size_t r = RoundUpTo(x, b), l = RoundDownTo(x, b); vp_check(r >= x && r - x < b, "RoundUpTo: least bound"); vp_check(r % b == 0, "RoundUpTo: multiple"); vp_check(l <= x && x - l < b, "RoundDownTo: greatest bound"); vp_check(l % b == 0, "RoundDownTo: multiple"); ExpectS<size_t>(DivCeil(x, b), x / b + (x % b != 0 ? 1 : 0), "DivCeil"); }
template <size_t kA> static void Round1() { const size_t x = vp_any<size_t>("x"); vp_assume(x <= (size_t(1) << 62)); const size_t r = RoundUpTo(x, kA), l = RoundDownTo(x, kA); vp_check(r >= x && r - x < kA, "RoundUpTo: least bound"); vp_check(r % kA == 0, "RoundUpTo: multiple"); vp_check(l <= x && x - l < kA, "RoundDownTo: greatest bound"); vp_check(l % kA == 0, "RoundDownTo: multiple"); }
static void tRoundPow2() { Round1<1>(); Round1<2>(); Round1<8>(); Round1<16>(); Round1<64>(); Round1<128>(); Round1<256>(); Round1<4096>(); Round1<(size_t(1) << 20)>(); }
template <class T> static void tDivCeil() { const T a = vp_any<T>("a"), b = vp_any<T>("b"); vp_assume(b != 0); const T r = static_cast<T>(DivCeil(a, b)); ExpectS<T>(r, static_cast<T>(a / b + (a % b != 0 ? 1 : 0)), "DivCeil"); }
// 2^(L-1) < d <= 2^L
template <class TU> static TU DivisorOf(size_t L) { return L == 0 ? TU(1) : static_cast<TU>(WithTop<TU>(L - 1) + 1); }
// for the largest L: d - 1 has bits k+1 and up set, bit k clear (so d does not wrap)
template <class TU> static TU DivisorOfLast(size_t k) { const TU low = vp_any<TU>("low"); return static_cast<TU>(static_cast<TU>((static_cast<TU>(~TU(0)) << k << 1) | (low & static_cast<TU>((TU(1) << k) - 1))) + 1); }
static void LemmaDivisor(size_t L, uint32_t d, uint32_t n) { if (vp_native() || L == 0) return; const uint64_t q = (((uint64_t(1) << L) - d) << 32) / d; vp_assume(q + 1 < (uint64_t(1) << 32)); const uint32_t m = static_cast<uint32_t>(q) + 1; const uint64_t t = (uint64_t(m) * n) >> 32; vp_assume(t <= n); vp_assume(((n + t) >> L) == n / d); }
static void Divisor321(size_t L, uint32_t d) { const uint32_t n = vp_any<uint32_t>("n"); LemmaDivisor(L, d, n); const Divisor v(d); ExpectS<uint32_t>(v.GetDivisor(), d, "GetDivisor"); ExpectS<uint32_t>(v.Divide(n), n / d, "Divide"); ExpectS<uint32_t>(v.Remainder(n), n - (n / d) * d, "Remainder"); }
static void tDivisor32() { for (size_t L = 0; L < 32; L++) Divisor321(L, DivisorOf<uint32_t>(L)); for (size_t k = 0; k + 1 < 32; k++) Divisor321(32, DivisorOfLast<uint32_t>(k)); }
using u128 = unsigned __int128;
static void LemmaDivisor(size_t L, uint64_t d, uint64_t n) { if (vp_native() || L == 0) return; const u128 q = (((u128(1) << L) - d) << 64) / d; vp_assume(q + 1 < (u128(1) << 64)); const uint64_t m = static_cast<uint64_t>(q) + 1; const u128 t = (u128(m) * n) >> 64; vp_assume(t <= n); vp_assume(((n + t) >> L) == n / d); }
static void Divisor641(size_t L, uint64_t d) { const uint64_t n = vp_any<uint64_t>("n"); LemmaDivisor(L, d, n); const Divisor64 v(d); ExpectS<uint64_t>(v.GetDivisor(), d, "GetDivisor"); ExpectS<uint64_t>(v.Divide(n), n / d, "Divide"); ExpectS<uint64_t>(v.Remainder(n), n - (n / d) * d, "Remainder"); }
static void tDivisor64() { for (size_t L = 0; L < 64; L++) Divisor641(L, DivisorOf<uint64_t>(L)); for (size_t k = 0; k + 1 < 64; k++) Divisor641(64, DivisorOfLast<uint64_t>(k)); }
// ---- bit sets, against an abstract set of booleans
static void tBitSet64() { uint64_t s = vp_any<uint64_t>("set"); BitSet64 b; b.SetNonzeroBitsFrom64(s); ExpectS<uint64_t>(b.Get64(), s, "Get64"); const size_t i = vp_size("i", 63), j = vp_size("j", 63); ExpectS<uint8_t>(b.Get(j), (s >> j) & 1, "Get"); ExpectS<uint8_t>(b.Any(), s != 0, "Any"); ExpectS<size_t>(b.Count(), BitsOf(s), "Count"); if (s != 0) ExpectS<size_t>(b.First(), LowBit(s), "First");
  BitSet64 c = b, e = b; c.Set(i); ExpectS<uint8_t>(c.Get(j), j == i || ((s >> j) & 1), "Set"); e.Clear(i); ExpectS<uint8_t>(e.Get(j), j != i && ((s >> j) & 1), "Clear"); }
// Foreach: in ascending order, exactly the elements; cut at an invariant over the set of elements not yet visited
static uint64_t gBits, gSeen;
static int InvSplit(size_t rest) { return (gSeen | rest) == gBits && (gSeen & rest) == 0 && (rest == 0 || gSeen < (rest & (~rest + 1))); }
static void tForeach64() { gBits = vp_any<uint64_t>("set"); gSeen = 0; BitSet64 b; b.SetNonzeroBitsFrom64(gBits); vp_cut("BitSet64::Foreach<"); vp_inv1(InvSplit, "visited and remaining elements partition the set, visited ones are smaller"); b.Foreach([](size_t i) HWY_ATTR { vp_check(i < 64 && ((gBits >> i) & 1), "Foreach: element of the set"); vp_check((uint64_t(1) << (i & 63)) > gSeen, "Foreach: ascending"); gSeen |= uint64_t(1) << (i & 63); }); ExpectS<uint64_t>(gSeen, gBits, "Foreach: every element"); }
// two levels: any state that satisfies the class invariant (a word is nonzero iff its summary bit is set)
template <size_t kMax> struct State { BitSet4096<kMax> b; uint64_t raw[kMax / 64]; State() { static_assert(sizeof(b) == (kMax / 64 + 1) * 8, ""); vp_sym(raw, sizeof(raw), 8, "set"); uint64_t mem[kMax / 64 + 1]; mem[0] = 0; for (size_t i = 0; i < kMax / 64; i++) { mem[i + 1] = raw[i]; mem[0] |= uint64_t(raw[i] != 0) << i; } memcpy(static_cast<void*>(&b), mem, sizeof(mem)); }
  bool has(size_t i) const { return (raw[i / 64] >> (i % 64)) & 1; } };
template <size_t kMax> static int Valid(const BitSet4096<kMax>& b) { uint64_t mem[kMax / 64 + 1]; memcpy(mem, &b, sizeof(mem)); uint64_t e = 0; for (size_t i = 0; i < kMax / 64; i++) e |= uint64_t(mem[i + 1] != 0) << i; return mem[0] == e; }
template <size_t kMax> static void tBitSet4096() { State<kMax> s; const size_t i = vp_size("i", kMax - 1), j = vp_size("j", kMax - 1); vp_check(Valid(BitSet4096<kMax>()), "class invariant: initially"); ExpectS<uint8_t>(BitSet4096<kMax>().Any(), 0, "initially empty"); ExpectS<uint8_t>(s.b.Get(j), s.has(j), "Get"); bool any = false; for (size_t k = 0; k < kMax / 64; k++) any = any || s.raw[k]; ExpectS<uint8_t>(s.b.Any(), any, "Any"); ExpectS<uint64_t>(s.b.Get64(), s.raw[0], "Get64");
  { auto c = s.b; c.Set(i); ExpectS<uint8_t>(c.Get(j), j == i || s.has(j), "Set"); vp_check(Valid(c), "class invariant: Set"); }
  { auto c = s.b; c.Clear(i); ExpectS<uint8_t>(c.Get(j), j != i && s.has(j), "Clear"); vp_check(Valid(c), "class invariant: Clear"); }
  { auto c = s.b; const uint64_t m = vp_any<uint64_t>("m"); c.SetNonzeroBitsFrom64(m); ExpectS<uint8_t>(c.Get(j), (j < 64 && ((m >> (j & 63)) & 1)) || s.has(j), "SetNonzeroBitsFrom64"); vp_check(Valid(c), "class invariant: SetNonzeroBitsFrom64"); }
  vp_assume(any); const size_t f = s.b.First(); vp_check(f < kMax && s.b.Get(f < kMax ? f : 0), "First: element"); vp_check(j >= f || !s.has(j), "First: least"); }
// every combination of empty and nonempty words
template <size_t kMax> static void tCount4096() { constexpr size_t n = kMax / 64; for (size_t pat = 0; pat < (size_t(1) << n); pat++) { BitSet4096<kMax> b; uint64_t mem[n + 1]; mem[0] = pat; size_t e = 0; for (size_t k = 0; k < n; k++) { mem[k + 1] = 0; if ((pat >> k) & 1) { mem[k + 1] = vp_any<uint64_t>("word"); if (vp_native()) mem[k + 1] |= 1; vp_assume(mem[k + 1] != 0); } e += BitsOf(mem[k + 1]); } memcpy(static_cast<void*>(&b), mem, sizeof(mem)); ExpectS<size_t>(b.Count(), e, "Count"); } }
static void tForeach4096() { constexpr size_t kMax = 256; State<kMax> s; uint8_t sparse = vp_any<uint8_t>("sparse"); BitSet4096<kMax> b; size_t n = 0; for (size_t i = 0; i < kMax; i++) if (s.has(i) && (sparse < 128 || (i * 37 + sparse) % 61 == 0)) { b.Set(i); n++; } size_t last = 0, c = 0; bool ok = true; b.Foreach([&](size_t i) HWY_ATTR { ok = ok && i < kMax && b.Get(i) && (c == 0 || i > last); last = i; c++; }); vp_check(ok && c == n, "Foreach: exactly the elements, ascending"); }
#define ENT(NAME, FN) vp_entry(NAME, FN)
#define ENT4(NAME) ENT(#NAME "<u8>", NAME<uint8_t>); ENT(#NAME "<u16>", NAME<uint16_t>); ENT(#NAME "<u32>", NAME<uint32_t>); ENT(#NAME "<u64>", NAME<uint64_t>)
#define ENT4I(NAME) ENT(#NAME "<i8>", NAME<int8_t>); ENT(#NAME "<i16>", NAME<int16_t>); ENT(#NAME "<i32>", NAME<int32_t>); ENT(#NAME "<i64>", NAME<int64_t>)
void Main() {
  ENT4(tPopCount); ENT4I(tPopCount); ENT("tNum0Bits32", tNum0Bits32); ENT("tNum0Bits64", tNum0Bits64); ENT4(tLog2); ENT4(tCeilLog2); ENT4(tScalarShr); ENT4I(tScalarShr); ENT4(tAddWithWraparound); ENT4I(tAddWithWraparound); ENT("tMul128", tMul128); ENT4I(tScalarAbsI);
  ENT("tScalarF<f32>", tScalarF<float>); ENT("tScalarF<f64>", tScalarF<double>); ENT("tScalarF<f16>", tScalarF<float16_t>); ENT("tScalarF<bf16>", tScalarF<bfloat16_t>);
  ENT("tBF16FromF32", tBF16FromF32); ENT("tBF16FromF64", tBF16FromF64); ENT("tF32FromBF16", tF32FromBF16); ENT("tRoundPow2", tRoundPow2); ENT("tDivCeil<u8>", tDivCeil<uint8_t>); ENT("tRound", tRound);
  ENT("tDivisor32", tDivisor32); ENT("tDivisor64", tDivisor64); ENT("tBitSet64", tBitSet64); ENT("tForeach64", tForeach64); ENT("tBitSet4096<128>", tBitSet4096<128>); ENT("tBitSet4096<4096>", tBitSet4096<4096>); ENT("tForeach4096", tForeach4096); ENT("tCount4096<128>", tCount4096<128>); ENT("tCount4096<192>", tCount4096<192>); ENT("tCount4096<256>", tCount4096<256>);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
