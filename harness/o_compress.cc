// C07: compaction and expansion: Compress*, Expand*, and their load/store forms
#define VP_SMALL_SIZES 1
#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
// Prefix counts in unary: ge[i][j] = at least j of the first i mask lanes are true
template <size_t N> struct Counts { bool ge[N + 1][N + 2];
  template <class M> explicit Counts(const M& m) { for (size_t j = 0; j < N + 2; j++) ge[0][j] = j == 0; for (size_t i = 0; i < N; i++) { ge[i + 1][0] = true; for (size_t j = 1; j < N + 2; j++) ge[i + 1][j] = j <= i + 1 && (ge[i][j] | (m[i] & ge[i][j - 1])); } }
  bool exact(size_t i, size_t j) const { return ge[i][j] & !ge[i][j + 1]; }
  bool some(size_t j) const { return ge[N][j + 1]; }   // more than j lanes are true
  size_t total() const { size_t c = 0; for (size_t j = 0; j < N; j++) c += some(j); return c; } };
// the j-th of the lanes whose mask is true
template <size_t N, class M, class A> static auto Picked(const Counts<N>& c, const M& m, const A& a, size_t j) -> MakeUnsigned<typename std::decay<decltype(a[0])>::type> { MakeUnsigned<typename std::decay<decltype(a[0])>::type> v = 0; for (size_t i = N; i-- > j;) v = (m[i] & c.exact(i, j)) ? Bits(a[i]) : v; return v; }
// mask from bits, so that the verifier can enumerate those of at most eight lanes
template <class D> struct MaskB { static constexpr size_t n = kN<D>; Mask<D> m; bool l[n]; uint64_t bits;
  explicit MaskB(const char* name) {
#if HWY_TARGET <= HWY_AVX3
    SymM<D> s(name); m = s.m; for (size_t i = 0; i < n; i++) l[i] = s[i]; bits = 0;
#else
    vp_sym(&bits, 8, 8, name); if (n <= 8) { vp_assume(bits < (uint64_t(1) << (n & 63))); vp_split(&bits, 1, 8, 0, uint64_t(1) << (n & 63)); } for (size_t i = 0; i < n; i++) l[i] = (bits >> i) & 1;
    using T = TFromD<D>; MakeUnsigned<T> raw[sizeof(m) / sizeof(T)]; MakeUnsigned<T> up[sizeof(m) / sizeof(T)]; vp_sym(up, sizeof(up), sizeof(T), "upper"); for (size_t i = 0; i < sizeof(m) / sizeof(T); i++) { const bool on = i < n ? l[i < n ? i : 0] : (up[i] & 1); raw[i] = on ? static_cast<MakeUnsigned<T>>(~MakeUnsigned<T>(0)) : MakeUnsigned<T>(0); } memcpy(static_cast<void*>(&m), raw, sizeof(m));
#endif
  }
  bool operator[](size_t i) const { return l[i]; } };
template <class T> static inline MakeUnsigned<T> BitsAt(const T* p, size_t i) { MakeUnsigned<T> u; memcpy(&u, p + i, sizeof(T)); return u; }
template <class T> struct Out { T* b; const T* o; size_t n; Out(size_t n_) : n(n_) { b = static_cast<T*>(vp_region(sizeof(T), n + 2, "out")); o = static_cast<const T*>(vp_snapshot(b)); } T* p() const { return b + 1; }
  MakeUnsigned<T> old(size_t i) const { return BitsAt(o, i + 1); } MakeUnsigned<T> now(size_t i) const { return BitsAt(b, i + 1); }
  void guards() const { ExpectS<MakeUnsigned<T>>(BitsAt(b, 0), BitsAt(o, 0), "element before the output unchanged"); ExpectS<MakeUnsigned<T>>(BitsAt(b, n + 1), BitsAt(o, n + 1), "element after the output unchanged"); } };
template <class D, class V, class M, class A> static void ExpectCompressed(D, const V& v, const Counts<kN<D>>& c, const M& m, const A& a, const char* label) { using TU = MakeUnsigned<TFromD<D>>; TU o[kN<D>], e[kN<D>]; memcpy(o, &v, sizeof(o)); for (size_t j = 0; j < kN<D>; j++) { const TU w = Picked(c, m, a, j); e[j] = c.some(j) ? w : TU(0); o[j] = c.some(j) ? o[j] : TU(0); } vp_eq(o, e, kN<D>, sizeof(TU), label); }
struct NotM { const bool* l; bool operator[](size_t i) const { return !l[i]; } };
VP_OP(tCompress) { MaskB<D> m("m"); Sym<D> a("a"); Counts<N> c(m); ExpectCompressed(d, Compress(a.v, m.m), c, m, a, "Compress"); }
VP_OP(tCompressNot) { MaskB<D> m("m"); Sym<D> a("a"); NotM n{m.l}; Counts<N> c(n); ExpectCompressed(d, CompressNot(a.v, m.m), c, n, a, "CompressNot"); }
template <class D> static void BitsBuf(uint8_t (&b)[8], bool (&l)[kN<D>]) { vp_sym(b, 8, 1, "bits"); if (kN<D> <= 8) vp_split(b, 1, 1, 0, 256); for (size_t i = 0; i < kN<D>; i++) l[i] = (b[i / 8] >> (i % 8)) & 1; }
VP_OP(tCompressBits) { uint8_t b[8]; bool m[N]; BitsBuf<D>(b, m); Sym<D> a("a"); Counts<N> c(m); ExpectCompressed(d, CompressBits(a.v, b), c, m, a, "CompressBits"); }
VP_OP(tCompressStore) { MaskB<D> m("m"); Sym<D> a("a"); Counts<N> c(m); Out<T> q(N); const size_t r = CompressStore(a.v, m.m, d, q.p()); for (size_t j = 0; j < N; j++) { const MakeUnsigned<T> w = Picked(c, m, a, j); vp_check(!c.some(j) | (q.now(j) == w), "CompressStore"); } ExpectS<size_t>(r, c.total(), "CompressStore: count"); q.guards(); }
VP_OP(tCompressBitsStore) { uint8_t b[8]; bool m[N]; BitsBuf<D>(b, m); Sym<D> a("a"); Counts<N> c(m); Out<T> q(N); const size_t r = CompressBitsStore(a.v, b, d, q.p()); for (size_t j = 0; j < N; j++) { const MakeUnsigned<T> w = Picked(c, m, a, j); vp_check(!c.some(j) | (q.now(j) == w), "CompressBitsStore"); } ExpectS<size_t>(r, c.total(), "CompressBitsStore: count"); q.guards(); }
VP_OP(tCompressBlendedStore) { MaskB<D> m("m"); Sym<D> a("a"); Counts<N> c(m); Out<T> q(N); const size_t r = CompressBlendedStore(a.v, m.m, d, q.p()); for (size_t j = 0; j < N; j++) { const MakeUnsigned<T> w = Picked(c, m, a, j); ExpectS<MakeUnsigned<T>>(q.now(j), c.some(j) ? w : q.old(j), "CompressBlendedStore: selected lanes written, the rest unchanged"); } ExpectS<size_t>(r, c.total(), "CompressBlendedStore: count"); q.guards(); }
#if !HWY_MEM_OPS_MIGHT_FAULT
VP_OP(tCompressBlendedStoreFault) { MaskB<D> m("m"); Sym<D> a("a"); Counts<N> c(m); const size_t k = vp_size("k", N); for (size_t j = 0; j < N; j++) vp_assume((j < k) == c.some(j)); T* p = static_cast<T*>(vp_region(sizeof(T), k, "p")); CompressBlendedStore(a.v, m.m, d, p); for (size_t j = 0; j < N; j++) if (j < k) { ExpectS<MakeUnsigned<T>>(BitsAt(p, j), Picked(c, m, a, j), "CompressBlendedStore, nothing accessible after the selected lanes"); } }
#endif
template <size_t N, class M, class A> static auto Spread(const Counts<N>& c, const M& m, const A& a, size_t i) -> MakeUnsigned<typename std::decay<decltype(a[0])>::type> { MakeUnsigned<typename std::decay<decltype(a[0])>::type> v = 0; for (size_t j = i + 1; j-- > 0;) v = (m[i] & c.exact(i, j)) ? Bits(a[j]) : v; return v; }
VP_OP(tExpand) { MaskB<D> m("m"); Sym<D> a("a"); Counts<N> c(m); Ref<D> e; VP_LANES e[i] = FromBits<T>(Spread(c, m, a, i)); Expect(d, Expand(a.v, m.m), e, "Expand"); }
VP_OP(tLoadExpand) { MaskB<D> m("m"); T* p = static_cast<T*>(vp_region(sizeof(T), N, "p")); Counts<N> c(m); Ref<D> e; VP_LANES e[i] = FromBits<T>(Spread(c, m, p, i)); Expect(d, LoadExpand(m.m, d, p), e, "LoadExpand"); }
void Main() {
  REG(tCompress, LALL); REG(tCompressNot, LALL); REG(tCompressBits, LALL); REG(tCompressStore, LALL); REG(tCompressBitsStore, LALL); REG(tCompressBlendedStore, LALL);
#if !HWY_MEM_OPS_MIGHT_FAULT
  REG(tCompressBlendedStoreFault, LALL);
#endif
  REG(tExpand, LALL); REG(tLoadExpand, LALL);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
