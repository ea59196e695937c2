// C20: contrib/random: the vectorised generator against the published xoshiro256++ / SplitMix64 definitions
#include "vp_hwy.h"
#ifdef VP_VERIFY
#include "hwy/aligned_allocator.cc"
namespace hwy { size_t VectorBytes() { return HWY_TARGET == HWY_SCALAR ? 16 : HWY_MAX_BYTES; } }  // trusted stand-in for the dispatched function: the vector size of this target
#endif
#include "hwy/contrib/random/random-inl.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
static constexpr size_t NL = MaxLanes(ScalableTag<uint64_t>());
// ---- published definitions (Blackman, Vigna)
static uint64_t RSplitMix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t RRotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
struct RState { uint64_t s[4]; };
static uint64_t RNext(RState& r) { uint64_t* s = r.s; const uint64_t result = RRotl(s[0] + s[3], 23) + s[0]; const uint64_t t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = RRotl(s[3], 45); return result; }
static void RJumpBy(RState& r, const uint64_t (&J)[4]) { RState o{{0, 0, 0, 0}}; for (int i = 0; i < 4; i++) for (int b = 0; b < 64; b++) { if ((J[i] >> b) & 1) for (int k = 0; k < 4; k++) o.s[k] ^= r.s[k]; RNext(r); } r = o; }
static void RJump(RState& r) { const uint64_t J[4] = {0x180ec6d33cfd0abaull, 0xd5a61266f0c9392cull, 0xa9582618e03fc9aaull, 0x39abdc4529b1661cull}; RJumpBy(r, J); }
static void RLongJump(RState& r) { const uint64_t J[4] = {0x76e15d3efefdcbbfull, 0xc5004e441c522fb3ull, 0x77710069854ee241ull, 0x39109bb02acbe635ull}; RJumpBy(r, J); }
static RState RSeed(uint64_t seed) { RState r; for (int i = 0; i < 4; i++) r.s[i] = RSplitMix(seed); return r; }
static RState AnyState() { RState r; vp_sym(r.s, sizeof(r.s), 8, "state"); return r; }
static internal::Xoshiro Of(const RState& r) { internal::Xoshiro x(0); x.SetState({r.s[0], r.s[1], r.s[2], r.s[3]}); return x; }
static void Same(const internal::Xoshiro& x, const RState& r, const char* label) { const auto g = x.GetState(); uint64_t a[4] = {g[0], g[1], g[2], g[3]}; vp_eq(a, r.s, 4, 8, label); }
static double RUniform(uint64_t x) { return static_cast<double>(x >> 11) * 1.1102230246251565e-16; }
// ---- scalar generator
static void tSplitMix() { const uint64_t seed = vp_any<uint64_t>("seed"); internal::SplitMix64 g(seed); uint64_t x = seed; for (int i = 0; i < 3; i++) ExpectS<uint64_t>(g(), RSplitMix(x), "SplitMix64"); }
static void tSeed() { const uint64_t seed = vp_any<uint64_t>("seed"); Same(internal::Xoshiro(seed), RSeed(seed), "seeding"); }
static void tNext() { RState r = AnyState(); internal::Xoshiro x = Of(r); Same(x, r, "SetState"); const uint64_t v = x(); ExpectS<uint64_t>(v, RNext(r), "next value"); Same(x, r, "next state"); }
static void tJump() { RState r = AnyState(); internal::Xoshiro x = Of(r); x.Jump(); RJump(r); Same(x, r, "Jump"); }
static void tLongJump() { RState r = AnyState(); internal::Xoshiro x = Of(r); x.LongJump(); RLongJump(r); Same(x, r, "LongJump"); }
static void tThread() { const uint64_t seed = vp_any<uint64_t>("seed"); RState r = RSeed(seed); RJump(r); Same(internal::Xoshiro(seed, 1), r, "thread 1"); RJump(r); Same(internal::Xoshiro(seed, 2), r, "thread 2"); }
#if HWY_HAVE_FLOAT64
static void tUniform1() { RState r = AnyState(); internal::Xoshiro x = Of(r); const double u = x.Uniform(), e = RUniform(RNext(r)); vp_eq(&u, &e, 1, 8, "Uniform"); vp_check(u >= 0.0 && u < 1.0, "Uniform in [0, 1)"); }
#endif
#if HWY_HAVE_FLOAT64
// exact by the contracts of ConvertTo (C04) and Mul (C09)
static void VUniform(const uint64_t* x, double* out) { const ScalableTag<double> dd; const ScalableTag<uint64_t> du; Vec<decltype(du)> v; memcpy(static_cast<void*>(&v), x, NL * 8); const auto r = Mul(ConvertTo(dd, ShiftRight<11>(v)), Set(dd, 1.1102230246251565e-16)); memcpy(out, &r, NL * 8); }
#endif
// ---- vector generator: lane i is the scalar generator after i jumps (of 2^128 steps)
struct Lanes2 { RState r[NL]; };
static VectorXoshiro AnyVec(Lanes2& l) { VectorXoshiro g(0); for (size_t i = 0; i < NL; i++) l.r[i] = AnyState(); auto& st = const_cast<AlignedNDArray<uint64_t, 2>&>(g.GetState()); for (size_t j = 0; j < 4; j++) for (size_t i = 0; i < NL; i++) st[{j}][i] = l.r[i].s[j]; return g; }
static void SameV(const VectorXoshiro& g, const Lanes2& l, const char* label) { const auto& st = g.GetState(); for (size_t j = 0; j < 4; j++) { uint64_t a[NL], e[NL]; for (size_t i = 0; i < NL; i++) { a[i] = st[{j}][i]; e[i] = l.r[i].s[j]; } vp_eq(a, e, NL, 8, label); } }
static void tVecSeed() { const uint64_t seed = vp_any<uint64_t>("seed"); VectorXoshiro g(seed); Lanes2 l; RState r = RSeed(seed); for (size_t i = 0; i < NL; i++) { l.r[i] = r; RJump(r); } SameV(g, l, "streams"); ExpectS<uint64_t>(g.StateSize(), NL * 4, "StateSize"); }
static void tVecSeedThread() { const uint64_t seed = vp_any<uint64_t>("seed"); VectorXoshiro g(seed, 2); Lanes2 l; RState r = RSeed(seed); RLongJump(r); RLongJump(r); for (size_t i = 0; i < NL; i++) { l.r[i] = r; RJump(r); } SameV(g, l, "streams of thread 2"); }
static void tVecNext() { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g(); uint64_t a[NL], e[NL]; memcpy(a, &v, sizeof(a)); for (size_t i = 0; i < NL; i++) e[i] = RNext(l.r[i]); vp_eq(a, e, NL, 8, "next values"); SameV(g, l, "next state"); }
// n values: sequence i belongs to lane i % NL; nothing beyond the result is written
template <size_t K> static void NextN() { { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g(K); ExpectS<size_t>(v.size(), K, "size"); for (size_t i = 0; i < (K + NL - 1) / NL * NL; i++) { const uint64_t e = RNext(l.r[i % NL]); if (i < K) ExpectS<uint64_t>(v[i], e, "operator()(n)"); } SameV(g, l, "state after n"); } }
template <size_t K> static void FixedN() { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g.operator()<K>(); for (size_t i = 0; i < (K + NL - 1) / NL * NL; i++) { const uint64_t e = RNext(l.r[i % NL]); if (i < K) ExpectS<uint64_t>(v[i], e, "operator()<n>()"); } SameV(g, l, "state after <n>"); }
#if HWY_HAVE_FLOAT64
static void tVecUniform() { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g.Uniform(); double a[NL], e[NL]; memcpy(a, &v, sizeof(a)); uint64_t x[NL]; for (size_t i = 0; i < NL; i++) x[i] = RNext(l.r[i]); VUniform(x, e); vp_eq(a, e, NL, 8, "Uniform"); SameV(g, l, "state after Uniform"); }
template <size_t K> static void UniformN() { { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g.Uniform(K); ExpectS<size_t>(v.size(), K, "size"); for (size_t i = 0; i < K; i += NL) { uint64_t x[NL]; double e[NL]; for (size_t k = 0; k < NL; k++) x[k] = RNext(l.r[k]); VUniform(x, e); for (size_t k = 0; k < NL && i + k < K; k++) { const double y = v[i + k]; vp_eq(&y, &e[k], 1, 8, "Uniform(n)"); } } SameV(g, l, "state after Uniform(n)"); } }
template <size_t K> static void UniformF() { { Lanes2 l; VectorXoshiro g = AnyVec(l); const auto v = g.Uniform<K>(); for (size_t i = 0; i < K; i += NL) { uint64_t x[NL]; double e[NL]; for (size_t k = 0; k < NL; k++) x[k] = RNext(l.r[k]); VUniform(x, e); for (size_t k = 0; k < NL && i + k < K; k++) { const double y = v[i + k]; vp_eq(&y, &e[k], 1, 8, "Uniform<n>()"); } } SameV(g, l, "state after Uniform<n>"); } }
#endif
template <size_t K> static void tCached() { const uint64_t seed = vp_any<uint64_t>("seed"); CachedXoshiro<K> g(seed); Lanes2 l; RState r = RSeed(seed); for (size_t i = 0; i < NL; i++) { l.r[i] = r; RJump(r); } for (size_t c = 0; c < 3; c++) for (size_t i = 0; i < (K + NL - 1) / NL * NL; i++) { const uint64_t e = RNext(l.r[i % NL]); if (i < K) ExpectS<uint64_t>(g(), e, "CachedXoshiro"); } }
#define ENT(N, F) vp_entry(N, F)
#define ENTK(K) ENT("tNextN<" #K ">", NextN<K>); ENT("tFixedN<" #K ">", FixedN<K>)
#define ENTU(K) ENT("tUniformN<" #K ">", UniformN<K>); ENT("tUniformF<" #K ">", UniformF<K>)
void Main() {
  ENT("tSplitMix", tSplitMix); ENT("tSeed", tSeed); ENT("tNext", tNext); ENT("tJump", tJump); ENT("tLongJump", tLongJump); ENT("tThread", tThread);
  ENT("tVecSeed", tVecSeed); ENT("tVecSeedThread", tVecSeedThread); ENT("tVecNext", tVecNext);
  ENTK(1); ENTK(2); ENTK(3); ENTK(4); ENTK(5); ENTK(7); ENTK(8); ENTK(9); ENTK(16); ENTK(19); ENT("tCached<1>", tCached<1>); ENT("tCached<2>", tCached<2>); ENT("tCached<16>", tCached<16>);
#if HWY_HAVE_FLOAT64
  ENT("tUniform1", tUniform1); ENT("tVecUniform", tVecUniform); ENTU(1); ENTU(3); ENTU(4); ENTU(8); ENTU(9); ENTU(19);
#endif
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
