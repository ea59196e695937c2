#include "vp_hwy.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
template <class T> static inline T Sat(W<T> x) { return x < W<T>(LimitsMin<T>()) ? LimitsMin<T>() : x > W<T>(LimitsMax<T>()) ? LimitsMax<T>() : static_cast<T>(x); }
template <class T> static inline T MulW(T a, T b) { return static_cast<T>(static_cast<uint64_t>(a) * static_cast<uint64_t>(b)); }
VP_OP(tDivMod) { Sym<D> a("a"), b("b"); Ref<D> q, r; VP_LANES { vp_assume(b[i] != 0); vp_assume(!(IsSigned<T>() && a[i] == LimitsMin<T>() && b[i] == T(-1))); q[i] = static_cast<T>(a[i] / b[i]); r[i] = static_cast<T>(a[i] % b[i]); } Expect(d, Div(a.v, b.v), q, "Div"); Expect(d, Mod(a.v, b.v), r, "Mod"); }
VP_OP(tMaskedMod) { Sym<D> a("a"), b("b"), no("no"); SymM<D> m("m"); Ref<D> e; VP_LANES { vp_assume(!m[i] || b[i] != 0); vp_assume(!(IsSigned<T>() && a[i] == LimitsMin<T>() && b[i] == T(-1))); e[i] = m[i] ? T(a[i] % (b[i] ? b[i] : 1)) : no[i]; } Expect(d, MaskedModOr(no.v, m.m, a.v, b.v), e, "MaskedModOr"); }
void Main() { REG(tDivMod, LUI); REG(tMaskedMod, LUI); }
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
