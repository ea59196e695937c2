// C12: contrib/algo over arrays of any length
#include "vp_hwy.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
static constexpr size_t kMax = size_t(1) << 40;
static bool gRare = true;  // native search only: matches are rare
// Arbitrary lane functions: uninterpreted for the verifier.
template <class T> static inline T F1(T a) { return FromBits<T>(static_cast<MakeUnsigned<T>>(vp_pure("f1", Bits(a)))); }
template <class T> static inline T F2(T a, T b) { return FromBits<T>(static_cast<MakeUnsigned<T>>(vp_pure2("f2", Bits(a), Bits(b)))); }
template <class T> static inline bool P1(T a) { const uint64_t h = vp_pure("p1", Bits(a)); return vp_native() && gRare ? h % 37 == 0 : h & 1; }
struct Fn1 { template <class D, class V> HWY_ATTR V operator()(D d, V v) const { TFromD<D> l[kRawN<D>]; memcpy(l, &v, sizeof(l)); for (size_t i = 0; i < kN<D>; i++) l[i] = F1(l[i]); memcpy(static_cast<void*>(&v), l, sizeof(l)); return v; } };
struct Fn2 { template <class D, class V> HWY_ATTR V operator()(D d, V v, V w) const { TFromD<D> l[kRawN<D>], m[kRawN<D>]; memcpy(l, &v, sizeof(l)); memcpy(m, &w, sizeof(m)); for (size_t i = 0; i < kN<D>; i++) l[i] = F2(l[i], m[i]); memcpy(static_cast<void*>(&v), l, sizeof(l)); return v; } };
struct Fn3 { template <class D, class V> HWY_ATTR V operator()(D d, V v, V w, V x) const { TFromD<D> l[kRawN<D>], m[kRawN<D>], n[kRawN<D>]; memcpy(l, &v, sizeof(l)); memcpy(m, &w, sizeof(m)); memcpy(n, &x, sizeof(n)); for (size_t i = 0; i < kN<D>; i++) l[i] = F2(F2(l[i], m[i]), n[i]); memcpy(static_cast<void*>(&v), l, sizeof(l)); return v; } };
struct Pr1 { template <class D, class V> HWY_ATTR Mask<D> operator()(D d, V v) const { TFromD<D> l[kRawN<D>]; bool b[kN<D>]; memcpy(l, &v, sizeof(l)); for (size_t i = 0; i < kN<D>; i++) b[i] = P1(l[i]); return MakeMask(d, b); } };
static size_t gCount; static const void *gFrom, *gFrom2, *gFrom3, *gOrig; static void* gTo; static uint64_t gVal, gVal2; static int gOp;
enum { kFill, kCopy, kTransform, kTransform1, kTransform2, kReplace, kReplaceIf, kGenerate };
template <class T> static T Want(size_t j) {
  const T o = gOrig ? static_cast<const T*>(gOrig)[j] : FromBits<T>(0); const T v = FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)), w = FromBits<T>(static_cast<MakeUnsigned<T>>(gVal2));
  switch (gOp) { case kFill: return v; case kCopy: return static_cast<const T*>(gFrom)[j]; case kTransform: return F1(o); case kTransform1: return F2(o, static_cast<const T*>(gFrom)[j]); case kTransform2: return F2(F2(o, static_cast<const T*>(gFrom)[j]), static_cast<const T*>(gFrom2)[j]); case kReplace: return o == w ? v : o; case kReplaceIf: return P1(o) ? v : o; }
  return FromBits<T>(static_cast<MakeUnsigned<T>>(vp_pure("g1", static_cast<MakeUnsigned<T>>(j))));
}
static int IdxInRange(size_t x) { return x <= gCount; }
static int IdxAligned(size_t x) { return x % 64 == 0; }
template <class T> static int Done(size_t j, size_t x) { return !(j < x && j < gCount) || Bits(static_cast<const T*>(gTo)[j]) == Bits(Want<T>(j)); }
template <class T> static int Rest(size_t j, size_t x) { return !(j >= x && j < gCount) || !gOrig || Bits(static_cast<const T*>(gTo)[j]) == Bits(static_cast<const T*>(gOrig)[j]); }
template <class T> static void Begin(const char* fn, int op, bool inout) {
  gCount = vp_size("count", kMax); gOp = op; gTo = vp_region(sizeof(T), gCount, "to"); gOrig = inout ? vp_snapshot(gTo) : nullptr; gFrom = vp_region(sizeof(T), gCount, "from"); gFrom2 = vp_region(sizeof(T), gCount, "from2");
  gVal = Bits(vp_any<T>("value")); gVal2 = Bits(vp_any<T>("old"));
  vp_cut(fn); vp_inv1(IdxInRange, "index <= count"); vp_invE(Done<T>, "elements before the index are final"); vp_invE(Rest<T>, "elements from the index on are unchanged");
}
template <class T> static void End(const char* label) {
  if (vp_native()) { for (size_t k = 0; k < gCount; k++) if (Bits(static_cast<const T*>(gTo)[k]) != Bits(Want<T>(k))) { vp_check(0, label); return; } return; }
  const size_t k = vp_any<size_t>("k"); vp_assume(k < gCount); ExpectS<MakeUnsigned<T>>(Bits(static_cast<const T*>(gTo)[k]), Bits(Want<T>(k)), label); }
#define TO static_cast<T*>(gTo)
#define FROM static_cast<const T*>(gFrom)
VP_OP(tFill) { Begin<T>("::Fill<", kFill, false); Fill(d, FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)), gCount, TO); End<T>("Fill"); }
VP_OP(tCopy) { Begin<T>("::Copy<", kCopy, false); Copy(d, FROM, gCount, TO); End<T>("Copy"); }
VP_OP(tTransform) { Begin<T>("::Transform<", kTransform, true); Transform(d, TO, gCount, Fn1()); End<T>("Transform"); }
VP_OP(tTransform1) { Begin<T>("::Transform1<", kTransform1, true); Transform1(d, TO, gCount, FROM, Fn2()); End<T>("Transform1"); }
VP_OP(tTransform2) { Begin<T>("::Transform2<", kTransform2, true); Transform2(d, TO, gCount, FROM, static_cast<const T*>(gFrom2), Fn3()); End<T>("Transform2"); }
VP_OP(tReplace) { Begin<T>("::Replace<", kReplace, true); Replace(d, TO, gCount, FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)), FromBits<T>(static_cast<MakeUnsigned<T>>(gVal2))); End<T>("Replace"); }
VP_OP(tReplaceIf) { Begin<T>("::ReplaceIf<", kReplaceIf, true); ReplaceIf(d, TO, gCount, FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)), Pr1()); End<T>("ReplaceIf"); }
// out[i] = g1(i): the indices passed to the functor are the element indices, in the lane type
struct FnG { template <class D, class V> HWY_ATTR Vec<D> operator()(D d, V vidx) const { using T = TFromD<D>; MakeUnsigned<T> l[kRawN<D>]; memcpy(l, &vidx, sizeof(l)); T o[kRawN<D>]; for (size_t i = 0; i < kRawN<D>; i++) o[i] = FromBits<T>(static_cast<MakeUnsigned<T>>(vp_pure("g1", l[i]))); Vec<D> r; memcpy(static_cast<void*>(&r), o, sizeof(o)); return r; } };
VP_OP(tGenerate) { Begin<T>("::Generate<", kGenerate, false); Generate(d, TO, gCount, FnG()); End<T>("Generate"); }
// Foreach presents the input in order, padded with `no`
struct FnE { mutable size_t pos; template <class D, class V> HWY_ATTR void operator()(D, V v) const { TFromD<D> l[kN<D>]; memcpy(l, &v, sizeof(l)); TFromD<D>* to = static_cast<TFromD<D>*>(gTo); for (size_t i = 0; i < kN<D>; i++) to[pos + i] = l[i]; pos += kN<D>; } };
template <class T> static int Seen(size_t j, size_t x) { return !(j < x && j < gCount) || Bits(static_cast<const T*>(gTo)[j]) == Bits(static_cast<const T*>(gFrom)[j]); }
VP_OP(tForeach) { gCount = vp_size("count", kMax); const size_t padded = (gCount + N - 1) / N * N; gTo = vp_region(sizeof(T), padded, "to"); gFrom = vp_region(sizeof(T), gCount, "from"); Sym<D> no("no"); vp_cut("::Foreach<"); vp_inv1(IdxInRange, "index <= count"); vp_invE(Seen<T>, "elements before the index were presented");
  FnE f{0}; Foreach(d, FROM, gCount, no.v, f); ExpectS<size_t>(f.pos, padded, "Foreach: number of lanes"); const size_t k = vp_any<size_t>("k"); vp_assume(k < padded); T e = FROM[k < gCount ? k : 0]; for (size_t i = 0; i < N; i++) if (k >= gCount && k % N == i) e = no[i]; ExpectS<MakeUnsigned<T>>(Bits(TO[k]), Bits(e), "Foreach: lanes"); }
// Find
template <class T> static bool Hit(size_t j) { const T x = static_cast<const T*>(gFrom)[j]; return gOp == 0 ? x == FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)) : P1(x); }
static size_t Gk; // an arbitrary element
template <class T> static int NoneBefore(size_t x) { return !(Gk < x && Gk < gCount) || !Hit<T>(Gk); }
template <class T> static void BeginFind(const char* fn, int op) { gCount = vp_size("count", kMax); gOp = op; gFrom = vp_region(sizeof(T), gCount, "in"); gVal = Bits(vp_any<T>("value")); if (vp_native() && gCount && gVal % 8) gVal = Bits(FROM[gVal % gCount]); Gk = vp_any<size_t>("k"); vp_cut(fn); vp_inv1(IdxInRange, "index <= count"); vp_inv1(NoneBefore<T>, "the k-th element does not match, if before the index"); }
template <class T> static void EndFind(size_t r) { vp_check(r <= gCount, "result <= count"); if (r < gCount) { vp_check(Hit<T>(r), "element at the result matches"); } if (vp_native()) { for (size_t k = 0; k < r && k < gCount; k++) if (Hit<T>(k)) { vp_check(0, "no earlier element matches"); break; } return; } vp_assume(Gk < r && Gk < gCount); vp_check(!Hit<T>(Gk), "no earlier element matches"); }
VP_OP(tFind) { BeginFind<T>("::Find<", 0); EndFind<T>(Find(d, FromBits<T>(static_cast<MakeUnsigned<T>>(gVal)), FROM, gCount)); }
VP_OP(tFindIf) { BeginFind<T>("::FindIf<", 1); EndFind<T>(FindIf(d, FROM, gCount, Pr1())); }
// CopyIf: Cnt(j) is the number of matches before j (ghost function given by its recursive definition); Gk is an arbitrary element.
template <class T> static size_t Cnt(size_t j) { if (vp_native()) { size_t c = 0; for (size_t i = 0; i < j; i++) c += Hit<T>(i); return c; } return vp_pure("cnt", j); }
template <class D> struct CI { using T = TFromD<D>; static constexpr size_t N = kN<D>;
  static int Def(size_t x) { int ok = (x != 0) | (Cnt<T>(0) == 0); for (size_t i = 0; i < N; i++) if (x < gCount && i < gCount - x) ok &= Cnt<T>(x + i + 1) == Cnt<T>(x + i) + (Hit<T>(x + i) ? 1 : 0); ok &= (Cnt<T>(x) <= x) | (x > gCount); ok &= Cnt<T>(Gk) <= Gk; if (Gk < x && x <= gCount) ok &= Cnt<T>(Gk) + (Hit<T>(Gk) ? 1 : 0) <= Cnt<T>(x); return ok; }
  static int Inv(size_t x) { return !(Gk < x && Gk < gCount && Hit<T>(Gk)) || Bits(static_cast<const T*>(gTo)[Cnt<T>(Gk)]) == Bits(static_cast<const T*>(gFrom)[Gk]); }
  static int Pos(size_t x, size_t y) { return x > gCount || y == Cnt<T>(x); } };
// contract of CompressBlendedStore (proved for the real one with the memory operations), used here instead of its body
template <class D> struct StubCBS { using T = TFromD<D>; static HWY_ATTR size_t Do(VFromD<D> v, MFromD<D> m, D d, T* HWY_RESTRICT p) {
    T l[kRawN<D>]; memcpy(l, &v, sizeof(l)); unsigned char b[kN<D>]; MaskLanes(d, m, b); size_t c = 0; for (size_t i = 0; i < kN<D>; i++) vp_check(b[i] <= 1, "mask lanes are all-zero or all-one");
    if (HWY_MEM_OPS_MIGHT_FAULT) { (void)*reinterpret_cast<volatile T*>(p); (void)*reinterpret_cast<volatile T*>(p + kN<D> - 1); }
    for (size_t i = 0; i < kN<D>; i++) if (b[i]) { p[c] = l[i]; c++; } return c; } };
VP_OP(tCopyIf) { gRare = false; gOp = 1; gCount = vp_size("count", kMax); gTo = vp_region(sizeof(T), gCount, "to"); gFrom = vp_region(sizeof(T), gCount, "from"); Gk = vp_any<size_t>("k"); 
  if (vp_native()) { T* end = CopyIf(d, FROM, gCount, TO, Pr1()); size_t n = 0; bool ok = true; for (size_t k = 0; k < gCount; k++) if (Hit<T>(k)) { ok &= Bits(TO[n]) == Bits(FROM[k]); n++; } vp_check(ok, "CopyIf: every match is copied, in order"); ExpectS<size_t>(static_cast<size_t>(end - TO), n, "CopyIf: returned end"); return; }
  vp_assume(Gk < gCount); vp_assume(CI<D>::Def(0));
  vp_replace("::CompressBlendedStore<", reinterpret_cast<void (*)()>(&StubCBS<D>::Do)); vp_cut("::CopyIf<"); vp_def1(CI<D>::Def, "count of matches"); vp_inv1(IdxInRange, "index <= count"); vp_inv2(CI<D>::Pos, "output position is the number of matches before the index"); vp_inv1(CI<D>::Inv, "the k-th element, if it matches, is in its place");
  T* end = CopyIf(d, FROM, gCount, TO, Pr1()); vp_assume(CI<D>::Def(gCount)); const size_t n = static_cast<size_t>(end - TO); ExpectS<size_t>(n, Cnt<T>(gCount), "CopyIf: returned end"); vp_check(CI<D>::Inv(gCount), "CopyIf: every match is copied, in order"); }
#define REGA(NAME) REGN(NAME, uint8_t, 4); REGN(NAME, int16_t, 4); REGN(NAME, uint32_t, 4); REGN(NAME, float, 4); REGN(NAME, int64_t, 2); REGN(NAME, double, 2)
#define REGB(NAME) REGN(NAME, uint16_t, 4); REGN(NAME, double, 2)
#define REGC(NAME) REGN(NAME, uint16_t, 2)
void Main() {
  REGA(tFill); REGA(tCopy); REGB(tTransform); REGB(tTransform1); REGN(tTransform2, double, 2); REGB(tReplace); REGB(tReplaceIf); REGA(tGenerate); REGA(tForeach); REGA(tFind); REGA(tFindIf); REGC(tCopyIf);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
