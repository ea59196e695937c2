// Lane-level access to Highway vectors that does not go through the ops under proof.
#pragma once
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
using i128 = __int128;
template <class T> using W = typename std::conditional<sizeof(T) == 8, i128, int64_t>::type;  // exact
template <class T> struct LaneBits { using type = MakeUnsigned<T>; };
template <class D> constexpr size_t kN = MaxLanes(D());
template <class D> constexpr size_t kRawN = sizeof(Vec<D>) / sizeof(TFromD<D>);
// Symbolic vector: every bit of the register is arbitrary, including the unspecified upper part of partial vectors.
template <class D> struct Sym {
  using T = TFromD<D>; static constexpr size_t n = kN<D>;
  Vec<D> v; T l[kRawN<D>];
  explicit Sym(const char* name) { vp_sym(l, sizeof(l), sizeof(T), name); memcpy(static_cast<void*>(&v), l, sizeof(l)); }
  const T& operator[](size_t i) const { return l[i]; }
  T& operator[](size_t i) { return l[i]; }
  void sync() { memcpy(static_cast<void*>(&v), l, sizeof(l)); }
};
template <class D> struct Ref { using T = TFromD<D>; static constexpr size_t n = kN<D>; T l[n]; T& operator[](size_t i) { return l[i]; } };
template <class V, class T, size_t n> static inline void Lanes(const V& v, T (&out)[n]) { static_assert(sizeof(V) >= sizeof(out), ""); memcpy(out, &v, sizeof(out)); }
// Symbolic mask, with arbitrary bits beyond the last lane.
template <class D> struct SymM {
  using T = TFromD<D>; static constexpr size_t n = kN<D>; using M = Mask<D>;
  M m; bool l[n];
  explicit SymM(const char* name) {
#if HWY_TARGET <= HWY_AVX3
    constexpr bool packed = true;
#else
    constexpr bool packed = false;
#endif
    if (packed && HWY_TARGET != HWY_SCALAR) { uint64_t b; vp_sym(&b, 8, 8, name); constexpr size_t raw = kRawN<D>; if (raw < 64) b &= (uint64_t(1) << (raw & 63)) - 1; /* representation invariant of AVX-512 masks: bits beyond the lanes of the register are zero; ExpectM shows that every op preserves it */ memcpy(static_cast<void*>(&m), &b, sizeof(m)); for (size_t i = 0; i < n; i++) l[i] = (b >> i) & 1; }
    else { unsigned char s[sizeof(M) / sizeof(T)]; vp_sym(s, sizeof(s), 1, name); T raw[sizeof(M) / sizeof(T)]; for (size_t i = 0; i < sizeof(M) / sizeof(T); i++) { const bool on = s[i] & 1; if (i < n) l[i] = on; memset(&raw[i], 0, sizeof(T)); MakeUnsigned<T> u = on ? static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0)) : MakeUnsigned<T>(0); memcpy(&raw[i], &u, sizeof(T)); } memcpy(static_cast<void*>(&m), raw, sizeof(m)); }
  }
  bool operator[](size_t i) const { return l[i]; }
};
template <class D, class V> static inline void Expect(D, const V& r, Ref<D>& e, const char* label) { static_assert(sizeof(V) >= sizeof(e.l), ""); TFromD<D> o[kN<D>]; memcpy(o, &r, sizeof(o)); vp_eq(o, e.l, kN<D>, sizeof(TFromD<D>), label); }
template <class D, class V> static inline void ExpectF(D, const V& r, Ref<D>& e, const char* label) { TFromD<D> o[kN<D>]; memcpy(o, &r, sizeof(o)); vp_feq(o, e.l, kN<D>, sizeof(TFromD<D>), label); }
template <class T> static inline void ExpectS(T r, T e, const char* label) { vp_eq(&r, &e, 1, sizeof(T), label); }
// Lanes of a mask as bytes
template <class D, class M> static inline void MaskLanes(D, const M& m, unsigned char (&out)[kN<D>]) {
  using T = TFromD<D>;
#if HWY_TARGET <= HWY_AVX3
  uint64_t b = 0; memcpy(&b, &m, sizeof(m)); for (size_t i = 0; i < kN<D>; i++) out[i] = (b >> i) & 1; (void)sizeof(T);
#else
  MakeUnsigned<T> raw[kN<D>]; memcpy(raw, &m, sizeof(raw)); for (size_t i = 0; i < kN<D>; i++) out[i] = raw[i] == 0 ? 0 : raw[i] == static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0)) ? 1 : 2;
#endif
}
template <class D, class M> static inline void ExpectM(D d, const M& m, const bool* e, const char* label) { unsigned char o[kN<D>], x[kN<D>]; MaskLanes(d, m, o); for (size_t i = 0; i < kN<D>; i++) x[i] = e[i] ? 1 : 0; vp_eq(o, x, kN<D>, 1, label); 
#if HWY_TARGET <= HWY_AVX3
  uint64_t b = 0, r = BitsFromMask(d, m); for (size_t i = 0; i < kN<D>; i++) b |= uint64_t(e[i] ? 1 : 0) << i; vp_eq(&r, &b, 1, 8, "BitsFromMask of the result");
#endif
}
template <class D> static inline Mask<D> MakeMask(D, const bool (&b)[kN<D>]) { Mask<D> m; memset(static_cast<void*>(&m), 0, sizeof(m));
#if HWY_TARGET <= HWY_AVX3
  uint64_t x = 0; for (size_t i = 0; i < kN<D>; i++) x |= uint64_t(b[i] ? 1 : 0) << i; memcpy(static_cast<void*>(&m), &x, sizeof(m));
#else
  using T = TFromD<D>; MakeUnsigned<T> raw[sizeof(m) / sizeof(T)]; for (size_t i = 0; i < sizeof(m) / sizeof(T); i++) raw[i] = i < kN<D> && b[i < kN<D> ? i : 0] ? static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0)) : MakeUnsigned<T>(0); memcpy(static_cast<void*>(&m), raw, sizeof(m));
#endif
  return m; }
template <class T, class I> static inline T Wrap(I x) { return static_cast<T>(x); }
template <class T> static inline MakeUnsigned<T> Bits(T x) { MakeUnsigned<T> u; memcpy(&u, &x, sizeof(T)); return u; }
template <class T> static inline T FromBits(MakeUnsigned<T> u) { T x; memcpy(&x, &u, sizeof(T)); return x; }
template <class T> static inline T AllOnes() { return FromBits<T>(static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0))); }
template <class T> static inline bool IsNaNBits(T x) { return Bits(x) << 1 > static_cast<MakeUnsigned<T>>(ExponentMask<T>() << 1); }

// Registration over the vector sizes of this target
#if HWY_TARGET == HWY_SCALAR
#define VP_SIZES(F, T) F(T, 1)
#elif HWY_TARGET <= HWY_AVX3
#define VP_SIZES(F, T) F(T, 64 / sizeof(T)) F(T, 32 / sizeof(T)) F(T, 16 / sizeof(T)) F(T, 8 / sizeof(T)) VP_ONE(F, T)
#elif HWY_TARGET <= HWY_AVX2
#define VP_SIZES(F, T) F(T, 32 / sizeof(T)) F(T, 16 / sizeof(T)) F(T, 8 / sizeof(T)) VP_ONE(F, T)
#else
#define VP_SIZES(F, T) F(T, 16 / sizeof(T)) F(T, 8 / sizeof(T)) VP_ONE(F, T)
#endif
#ifdef VP_SMALL_SIZES
#ifndef VP_TINY
#define VP_TINY(F, T)
#endif
#define VP_ONE(F, T) F(T, (sizeof(T) >= 4 ? 0 : 4 / sizeof(T))) VP_TINY(F, T) F(T, (sizeof(T) == 8 ? 0 : 1))
#else
#define VP_ONE(F, T) F(T, (sizeof(T) == 8 ? 0 : 1))
#endif
template <class T, size_t N> using Tag = FixedTag<T, N>;
// functor classes: template <class D> struct Op { static void run(); }
template <template <class> class Op, class T, size_t N, bool ok> struct Reg1 { static void go(const char* nm) { vp_entry(nm, &Op<Tag<T, N>>::run); } };
template <template <class> class Op, class T, size_t N> struct Reg1<Op, T, N, false> { static void go(const char*) {} };
template <template <class> class Op, class T, size_t kMinBytes, size_t kMaxBytes> static void RegT(const char* base) {
  // name: base<type,lanes>
  char buf[96]; size_t p = 0; while (base[p]) { buf[p] = base[p]; p++; }
  const char* tn = sizeof(T) == 1 ? "8" : sizeof(T) == 2 ? "16" : sizeof(T) == 4 ? "32" : "64";
  buf[p++] = '<'; buf[p++] = IsSame<T, bfloat16_t>() ? 'b' : (IsFloat<T>() || IsSame<T, float16_t>()) ? 'f' : IsSigned<T>() ? 'i' : 'u'; while (*tn) buf[p++] = *tn++; buf[p++] = ','; const size_t q = p;
#define VP_R(TT, NN) { p = q; size_t nn = NN; if (nn >= 10) buf[p++] = (char)('0' + nn / 10); buf[p++] = (char)('0' + nn % 10); buf[p++] = '>'; buf[p] = 0; Reg1<Op, TT, (NN) ? (NN) : 1, (NN) != 0 && (NN) * sizeof(TT) >= kMinBytes && (NN) * sizeof(TT) <= kMaxBytes && Op<Tag<TT, (NN) ? (NN) : 1>>::kOk>::go(buf); }
  VP_SIZES(VP_R, T)
}
template <template <class> class Op, class T, size_t N> static void RegN(const char* base) {
  constexpr size_t NN = HWY_TARGET == HWY_SCALAR ? 1 : N; char buf[96]; size_t p = 0; while (base[p]) { buf[p] = base[p]; p++; }
  const char* tn = sizeof(T) == 1 ? "8" : sizeof(T) == 2 ? "16" : sizeof(T) == 4 ? "32" : "64"; buf[p++] = '<'; buf[p++] = IsSame<T, bfloat16_t>() ? 'b' : (IsFloat<T>() || IsSame<T, float16_t>()) ? 'f' : IsSigned<T>() ? 'i' : 'u'; while (*tn) buf[p++] = *tn++; buf[p++] = ','; if (NN >= 10) buf[p++] = (char)('0' + NN / 10); buf[p++] = (char)('0' + NN % 10); buf[p++] = '>'; buf[p] = 0;
  vp_entry(buf, &Op<Tag<T, NN>>::run); }
template <class... Ts> struct TL {};
using LU = TL<uint8_t, uint16_t, uint32_t, uint64_t>; using LI = TL<int8_t, int16_t, int32_t, int64_t>; using LF = TL<float, double>;
using LUI = TL<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t>; using LALL = TL<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, float, double>;
using LUI163264 = TL<uint16_t, uint32_t, uint64_t, int16_t, int32_t, int64_t>; using LUI3264 = TL<uint32_t, uint64_t, int32_t, int64_t>; using LUI816 = TL<uint8_t, uint16_t, int8_t, int16_t>; using LUI81632 = TL<uint8_t, uint16_t, uint32_t, int8_t, int16_t, int32_t>; using LIF = TL<int8_t, int16_t, int32_t, int64_t, float, double>;
using LUIF163264 = TL<uint16_t, uint32_t, uint64_t, int16_t, int32_t, int64_t, float, double>; using LUIF3264 = TL<uint32_t, uint64_t, int32_t, int64_t, float, double>;
template <template <class> class Op, size_t kMinBytes, size_t kMaxBytes, class... Ts> static void RegL(const char* base, TL<Ts...>) { int x[] = {(RegT<Op, Ts, kMinBytes, kMaxBytes>(base), 0)...}; (void)x; }
#define REG(NAME, LIST) RegL<NAME, 0, 9999>(#NAME, LIST())
#define REGMIN(NAME, LIST, MINB) RegL<NAME, MINB, 9999>(#NAME, LIST())
#define REGN(NAME, T, N) RegN<NAME, T, N>(#NAME)
#define REG1(NAME, T) RegT<NAME, T, 0, 9999>(#NAME)
#define REG1MIN(NAME, T, MINB) RegT<NAME, T, MINB, 9999>(#NAME)
#define VP_LANES for (size_t i = 0; i < N; i++)
#if HWY_TARGET == HWY_SCALAR
#define NOTSCALAR(...)
#else
#define NOTSCALAR(...) __VA_ARGS__
#endif
#define VP_OP(NAME) VP_OPIF(NAME, true)
#define VP_OPIF(NAME, ...) template <class D> struct NAME { using T = TFromD<D>; static constexpr size_t N = kN<D>; static constexpr bool kOk = (__VA_ARGS__); static void run() { D d; (void)d; body(d); } static void body(D d); }; template <class D> void NAME<D>::body(D d)
}}}
HWY_AFTER_NAMESPACE();
