// C06: memory operations: exactly the documented lanes are read and written, and nothing beyond
#define VP_SMALL_SIZES 1
#include "vp_hwy.h"
#include "hwy/cache_control.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class T> static inline T* In(size_t n, const char* name = "p") { return static_cast<T*>(vp_region(sizeof(T), n, name)); }
template <class T> static inline MakeUnsigned<T> BitsAt(const T* p, size_t i) { MakeUnsigned<T> u; memcpy(&u, p + i, sizeof(T)); return u; }
template <class T> static inline void ExpectMem(const T* p, size_t i, MakeUnsigned<T> e, const char* label) { ExpectS<MakeUnsigned<T>>(BitsAt(p, i), e, label); }
#define MAXN 66
// a buffer with one guard element on each side that must stay unchanged
template <class T> struct Out { T* b; const T* o; size_t n; Out(size_t n_) : n(n_) { b = In<T>(n + 2, "out"); o = static_cast<const T*>(vp_snapshot(b)); } T* p() const { return b + 1; }
  MakeUnsigned<T> old(size_t i) const { return BitsAt(o, i + 1); } MakeUnsigned<T> now(size_t i) const { return BitsAt(b, i + 1); }
  void guards() const { ExpectMem(b, 0, BitsAt(o, 0), "element before the output unchanged"); ExpectMem(b, n + 1, BitsAt(o, n + 1), "element after the output unchanged"); } };
VP_OP(tLoad) { T* p = In<T>(N); Ref<D> e; memcpy(e.l, p, sizeof(e.l)); Expect(d, Load(d, p), e, "Load"); Expect(d, LoadU(d, p), e, "LoadU"); NOTSCALAR(if (sizeof(T) * N >= 16) { ; }) }
VP_OP(tStore) { Sym<D> a("a"); { Out<T> q(N); Store(a.v, d, q.p()); VP_LANES ExpectS(q.now(i), Bits(a[i]), "Store"); q.guards(); } { Out<T> q(N); StoreU(a.v, d, q.p()); VP_LANES ExpectS(q.now(i), Bits(a[i]), "StoreU"); q.guards(); } { constexpr size_t kB = HWY_STREAM_MULTIPLE; /* may write whole multiples of this many bytes */ Out<T> q(N * sizeof(T) < kB ? kB / sizeof(T) : N); Stream(a.v, d, q.p()); VP_LANES ExpectS(q.now(i), Bits(a[i]), "Stream"); q.guards(); } }
#if HWY_TARGET != HWY_SCALAR
VP_OP(tLoadDup128) { constexpr size_t B = 16 / sizeof(T) < N ? 16 / sizeof(T) : N; T* p = In<T>(16 / sizeof(T)); Ref<D> e; VP_LANES e[i] = p[i % B]; Expect(d, LoadDup128(d, p), e, "LoadDup128"); }
#endif
// Masked loads: on targets where masked-off lanes may not be touched, only the enabled elements exist
template <class D> struct Exact { using T = TFromD<D>; static constexpr size_t N = kN<D>; };
VP_OP(tMaskedLoad) { SymM<D> m("m"); Sym<D> no("no"); T* p = In<T>(N); Ref<D> e, z; VP_LANES { e[i] = m[i] ? p[i] : no[i]; z[i] = m[i] ? p[i] : FromBits<T>(0); } Expect(d, MaskedLoad(m.m, d, p), z, "MaskedLoad"); Expect(d, MaskedLoadOr(no.v, m.m, d, p), e, "MaskedLoadOr"); }
#if !HWY_MEM_OPS_MIGHT_FAULT
VP_OP(tMaskedLoadFault) { SymM<D> m("m"); const size_t k = vp_size("k", N); VP_LANES if (i >= k) vp_assume(!m[i]); T* p = In<T>(k); Ref<D> z; VP_LANES { z[i] = FromBits<T>(0); if (m[i]) z[i] = p[i]; } Expect(d, MaskedLoad(m.m, d, p), z, "MaskedLoad, masked-off lanes inaccessible"); }
VP_OP(tBlendedStoreFault) { SymM<D> m("m"); Sym<D> a("a"); const size_t k = vp_size("k", N); VP_LANES if (i >= k) vp_assume(!m[i]); T* p = In<T>(k); const T* o = static_cast<const T*>(vp_snapshot(p)); BlendedStore(a.v, m.m, d, p); VP_LANES if (i < k) ExpectMem(p, i, m[i] ? Bits(a[i]) : BitsAt(o, i), "BlendedStore, masked-off lanes inaccessible"); }
#endif
VP_OP(tBlendedStore) { SymM<D> m("m"); Sym<D> a("a"); Out<T> q(N); BlendedStore(a.v, m.m, d, q.p()); VP_LANES ExpectS(q.now(i), m[i] ? Bits(a[i]) : q.old(i), "BlendedStore"); q.guards(); }
VP_OP(tLoadN) { constexpr size_t R = N * sizeof(T) < 16 ? 16 / sizeof(T) : N; /* only [p, p + n) is accessible; more than a register is never accessed */ const size_t n = vp_any<size_t>("n"); const size_t c = vp_size("c", R); vp_assume(c == (n < R ? n : R)); T* p = In<T>(c); Sym<D> no("no"); Ref<D> e, z; VP_LANES { e[i] = no[i]; z[i] = FromBits<T>(0); if (i < n) { e[i] = p[i]; z[i] = p[i]; } } Expect(d, LoadN(d, p, n), z, "LoadN"); Expect(d, LoadNOr(no.v, d, p, n), e, "LoadNOr"); }
VP_OP(tStoreN) { const size_t n = vp_any<size_t>("n"); const size_t c = vp_size("c", N); vp_assume(c == (n < N ? n : N)); Sym<D> a("a"); T* p = In<T>(c); StoreN(a.v, d, p, n); VP_LANES if (i < c) ExpectMem(p, i, Bits(a[i]), "StoreN"); }
VP_OP(tStoreNKeeps) { const size_t n = vp_any<size_t>("n"); Sym<D> a("a"); Out<T> q(N); StoreN(a.v, d, q.p(), n); VP_LANES ExpectS(q.now(i), i < n ? Bits(a[i]) : q.old(i), "StoreN: elements after the count unchanged"); q.guards(); }
VP_OP(tSafeFillN) { const size_t n = vp_size("n", N); T* p = In<T>(n); const T v = vp_any<T>("v"); SafeFillN(n, v, d, p); VP_LANES if (i < n) ExpectMem(p, i, Bits(v), "SafeFillN"); }
VP_OP(tSafeCopyN) { const size_t n = vp_size("n", N); T* p = In<T>(n); T* f = In<T>(n, "from"); SafeCopyN(n, d, f, p); VP_LANES if (i < n) ExpectMem(p, i, BitsAt(f, i), "SafeCopyN"); }
VP_OP(tSafeKeeps) { const size_t n = vp_size("n", N); const T v = vp_any<T>("v"); Out<T> q(N), r(N); SafeFillN(n, v, d, q.p()); T* f = In<T>(N, "from"); SafeCopyN(n, d, f, r.p()); VP_LANES { ExpectS(q.now(i), i < n ? Bits(v) : q.old(i), "SafeFillN: the rest unchanged"); ExpectS(r.now(i), i < n ? BitsAt(f, i) : r.old(i), "SafeCopyN: the rest unchanged"); } q.guards(); r.guards(); }
#if HWY_TARGET != HWY_SCALAR
VP_OP(tInsertIntoUpper) { if constexpr (N > 1) { T* p = In<T>(N / 2); Sym<D> v("v"); Ref<D> e; VP_LANES e[i] = i < N / 2 ? v[i] : p[i - N / 2]; Expect(d, InsertIntoUpper(d, p, v.v), e, "InsertIntoUpper"); } else vp_check(1, "single lane"); }
#endif
VP_OP(tLoadInterleaved) { { T* p = In<T>(2 * N); Vec<D> v0, v1; LoadInterleaved2(d, p, v0, v1); Ref<D> e0, e1; VP_LANES { e0[i] = p[2 * i]; e1[i] = p[2 * i + 1]; } Expect(d, v0, e0, "LoadInterleaved2 v0"); Expect(d, v1, e1, "LoadInterleaved2 v1"); }
  { T* p = In<T>(3 * N); Vec<D> v0, v1, v2; LoadInterleaved3(d, p, v0, v1, v2); Ref<D> e0, e1, e2; VP_LANES { e0[i] = p[3 * i]; e1[i] = p[3 * i + 1]; e2[i] = p[3 * i + 2]; } Expect(d, v0, e0, "LoadInterleaved3 v0"); Expect(d, v1, e1, "LoadInterleaved3 v1"); Expect(d, v2, e2, "LoadInterleaved3 v2"); }
  { T* p = In<T>(4 * N); Vec<D> v0, v1, v2, v3; LoadInterleaved4(d, p, v0, v1, v2, v3); Ref<D> e0, e1, e2, e3; VP_LANES { e0[i] = p[4 * i]; e1[i] = p[4 * i + 1]; e2[i] = p[4 * i + 2]; e3[i] = p[4 * i + 3]; } Expect(d, v0, e0, "LoadInterleaved4 v0"); Expect(d, v1, e1, "LoadInterleaved4 v1"); Expect(d, v2, e2, "LoadInterleaved4 v2"); Expect(d, v3, e3, "LoadInterleaved4 v3"); } }
VP_OP(tStoreInterleaved) { Sym<D> a("a"), b("b"), c("c"), f("d"); { Out<T> q(2 * N); StoreInterleaved2(a.v, b.v, d, q.p()); VP_LANES { ExpectS(q.now(2 * i), Bits(a[i]), "StoreInterleaved2"); ExpectS(q.now(2 * i + 1), Bits(b[i]), "StoreInterleaved2"); } q.guards(); }
  { Out<T> q(3 * N); StoreInterleaved3(a.v, b.v, c.v, d, q.p()); VP_LANES { ExpectS(q.now(3 * i), Bits(a[i]), "StoreInterleaved3"); ExpectS(q.now(3 * i + 1), Bits(b[i]), "StoreInterleaved3"); ExpectS(q.now(3 * i + 2), Bits(c[i]), "StoreInterleaved3"); } q.guards(); }
  { Out<T> q(4 * N); StoreInterleaved4(a.v, b.v, c.v, f.v, d, q.p()); VP_LANES { ExpectS(q.now(4 * i), Bits(a[i]), "StoreInterleaved4"); ExpectS(q.now(4 * i + 1), Bits(b[i]), "StoreInterleaved4"); ExpectS(q.now(4 * i + 2), Bits(c[i]), "StoreInterleaved4"); ExpectS(q.now(4 * i + 3), Bits(f[i]), "StoreInterleaved4"); } q.guards(); } }
// Gather / scatter over an array of arbitrary length with valid indices
template <class D> struct Idx : Sym<RebindToSigned<D>> { using TI = MakeSigned<TFromD<D>>; Idx(size_t n, TI scale = 1) : Sym<RebindToSigned<D>>("idx") { for (size_t i = 0; i < kN<D>; i++) { this->l[i] &= LimitsMax<TI>(); vp_assume(static_cast<uint64_t>(this->l[i]) < n); this->l[i] = static_cast<TI>(this->l[i] * scale); } this->sync(); } };
template <class T> static size_t Cnt0() { return vp_size("count", size_t(1) << (sizeof(T) == 4 ? 28 : 40)); }
VP_OP(tGather) { const size_t n = Cnt0<T>(); vp_assume(n > 0); T* p = In<T>(n); Idx<D> x(n); Idx<D> o(n, sizeof(T)); Ref<D> e, f; VP_LANES { e[i] = p[static_cast<size_t>(x[i])]; f[i] = p[static_cast<size_t>(o[i]) / sizeof(T)]; } Expect(d, GatherIndex(d, p, x.v), e, "GatherIndex"); Expect(d, GatherOffset(d, p, o.v), f, "GatherOffset"); }
template <class D> struct IdxM : Sym<RebindToSigned<D>> { using TI = MakeSigned<TFromD<D>>; template <class B> IdxM(size_t n, const B& on) : Sym<RebindToSigned<D>>("idx") { for (size_t i = 0; i < kN<D>; i++) { this->l[i] &= LimitsMax<TI>(); vp_assume(!on[i] || static_cast<uint64_t>(this->l[i]) < n); } this->sync(); } };
VP_OP(tMaskedGather) { const size_t n = Cnt0<T>(); T* p = In<T>(n); SymM<D> m("m"); IdxM<D> x(n, m); Sym<D> no("no"); Ref<D> e, z; VP_LANES { e[i] = no[i]; z[i] = FromBits<T>(0); if (m[i]) e[i] = z[i] = p[static_cast<size_t>(x[i])]; } Expect(d, MaskedGatherIndex(m.m, d, p, x.v), z, "MaskedGatherIndex"); Expect(d, MaskedGatherIndexOr(no.v, m.m, d, p, x.v), e, "MaskedGatherIndexOr"); }
struct FirstOn { size_t n; bool operator[](size_t i) const { return i < n; } };
VP_OP(tGatherN) { const size_t n = Cnt0<T>(), c = vp_any<size_t>("c"); T* p = In<T>(n); IdxM<D> x(n, FirstOn{c}); Sym<D> no("no"); Ref<D> e, z; VP_LANES { e[i] = no[i]; z[i] = FromBits<T>(0); if (i < c) e[i] = z[i] = p[static_cast<size_t>(x[i])]; } Expect(d, GatherIndexN(d, p, x.v, c), z, "GatherIndexN"); Expect(d, GatherIndexNOr(no.v, d, p, x.v, c), e, "GatherIndexNOr"); }
// the element at an arbitrary position k afterwards: one of the lanes stored there, or the old value
template <class D, class X, class B> static void ExpectScatter(const TFromD<D>* p, const TFromD<D>* o, size_t n, const Sym<D>& a, const X& x, const B& on, const char* label) { const size_t k = vp_any<size_t>("k"); vp_assume(k < n); const auto r = BitsAt(p, k); bool any = false, hit = false; for (size_t i = 0; i < kN<D>; i++) { const bool h = on[i] && static_cast<size_t>(x[i]) == k; any |= h; hit |= h && r == Bits(a[i]); } vp_check(any ? hit : r == BitsAt(o, k), label); }
VP_OP(tScatter) { const size_t n = Cnt0<T>(); vp_assume(n > 0); T* p = In<T>(n); const T* o = static_cast<const T*>(vp_snapshot(p)); Idx<D> x(n); Sym<D> a("a"); ScatterIndex(a.v, d, p, x.v); ExpectScatter(p, o, n, a, x, FirstOn{N}, "ScatterIndex"); }
VP_OP(tScatterOffset) { const size_t n = Cnt0<T>(); vp_assume(n > 0); T* p = In<T>(n); const T* o = static_cast<const T*>(vp_snapshot(p)); Idx<D> x(n, sizeof(T)); Sym<D> a("a"); ScatterOffset(a.v, d, p, x.v); Idx<D>& y = x; VP_LANES y.l[i] = static_cast<typename Idx<D>::TI>(y.l[i] / static_cast<typename Idx<D>::TI>(sizeof(T))); ExpectScatter(p, o, n, a, y, FirstOn{N}, "ScatterOffset"); }
VP_OP(tMaskedScatter) { const size_t n = Cnt0<T>(); T* p = In<T>(n); const T* o = static_cast<const T*>(vp_snapshot(p)); SymM<D> m("m"); IdxM<D> x(n, m); Sym<D> a("a"); MaskedScatterIndex(a.v, m.m, d, p, x.v); ExpectScatter(p, o, n, a, x, m, "MaskedScatterIndex"); }
VP_OP(tScatterN) { const size_t n = Cnt0<T>(), c = vp_any<size_t>("c"); T* p = In<T>(n); const T* o = static_cast<const T*>(vp_snapshot(p)); IdxM<D> x(n, FirstOn{c}); Sym<D> a("a"); ScatterIndexN(a.v, d, p, x.v, c); ExpectScatter(p, o, n, a, x, FirstOn{c}, "ScatterIndexN"); }
#if HWY_TARGET != HWY_SCALAR
template <class D, class TT> static void TruncStore(D d) { using T = TFromD<D>; constexpr size_t N = kN<D>; if constexpr (N * sizeof(TT) >= 1) { Sym<D> a("a"); Out<TT> q(N); TruncateStore(a.v, d, q.p()); VP_LANES ExpectS(q.now(i), static_cast<TT>(a[i]), "TruncateStore"); q.guards(); } }
VP_OP(tTruncateStore) { if constexpr (sizeof(T) > 1) TruncStore<D, uint8_t>(d); if constexpr (sizeof(T) > 2) TruncStore<D, uint16_t>(d); if constexpr (sizeof(T) > 4) TruncStore<D, uint32_t>(d); }
#endif
void Main() {
  REG(tLoad, LALL); REG(tStore, LALL); NOTSCALAR(REG(tLoadDup128, LALL);) REG(tMaskedLoad, LALL); REG(tBlendedStore, LALL);
#if !HWY_MEM_OPS_MIGHT_FAULT
  REG(tMaskedLoadFault, LALL); REG(tBlendedStoreFault, LALL);
#endif
  REG(tLoadN, LALL); REG(tStoreN, LALL); REG(tStoreNKeeps, LALL); REG(tSafeFillN, LALL); REG(tSafeCopyN, LALL); REG(tSafeKeeps, LALL);
  NOTSCALAR(REG(tInsertIntoUpper, LALL);) REG(tLoadInterleaved, LALL); REG(tStoreInterleaved, LALL);
  REG(tGather, LUIF3264); REG(tMaskedGather, LUIF3264); REG(tGatherN, LUIF3264); REG(tScatter, LUIF3264); REG(tScatterOffset, LUIF3264); REG(tMaskedScatter, LUIF3264); REG(tScatterN, LUIF3264);
  using LU16 = TL<uint16_t, uint32_t, uint64_t>; NOTSCALAR(REG(tTruncateStore, LU16);)
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
