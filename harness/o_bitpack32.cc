// C13: contrib/bit_pack (frame of reference: full vectors only): Pack and Unpack are inverse to each other and stay within their buffers
#include "vp_hwy.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
static constexpr size_t kFull = HWY_TARGET == HWY_SCALAR ? 0 : HWY_MAX_BYTES;
// The arrays have exactly the documented extent: B raw vectors, kBits packed vectors (B = bits per lane).
template <class T, size_t K> constexpr T LowBits() { return static_cast<T>(~T(0)) >> (sizeof(T) * 8 - K); }
template <size_t K, class D, class Pk, class Un> HWY_ATTR void RoundTrip(D, const Pk& pack, const Un& unpack, TFromD<D> frame) {
  using T = TFromD<D>; constexpr size_t B = sizeof(T) * 8, N = kN<D>; constexpr T kMask = LowBits<T, K>();
  { T raw[B * N], packed[K * N], out[B * N]; vp_sym(raw, sizeof(raw), sizeof(T), "raw"); vp_sym(packed, sizeof(packed), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    for (size_t i = 0; i < B * N; i++) raw[i] = static_cast<T>((raw[i] & kMask) + frame);
    pack(raw, packed); unpack(packed, out); vp_eq(out, raw, B * N, sizeof(T), "Unpack(Pack(raw)) == raw"); }
  { T raw[B * N], packed[K * N], out[K * N]; vp_sym(packed, sizeof(packed), sizeof(T), "packed"); vp_sym(raw, sizeof(raw), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    unpack(packed, raw); T hi[B * N], z[B * N]; for (size_t i = 0; i < B * N; i++) { z[i] = 0; hi[i] = static_cast<T>(static_cast<T>(raw[i] - frame) & static_cast<T>(~kMask)); } vp_eq(hi, z, B * N, sizeof(T), "unpacked values have kBits bits");
    pack(raw, out); vp_eq(out, packed, K * N, sizeof(T), "Pack(Unpack(packed)) == packed"); }
}
#define PK(B, K) VP_OPIF(tPack##B##_##K, B >= 32 || kN<D> * sizeof(TFromD<D>) >= 2) { const Pack##B<K> f; RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.Pack(d, r, p); }, [&](const T* p, T* r) HWY_ATTR { f.Unpack(d, p, r); }, T(0)); }
#define PF(B, K) VP_OP(tPackFoR##B##_##K) { const Pack##B<K> f; const T frame = vp_any<T>("frame"); RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.template Pack<D, BlockPackingType::kFoRBitPacked>(d, r, p, frame); }, [&](const T* p, T* r) HWY_ATTR { f.template Unpack<D, BlockPackingType::kFoRBitPacked>(d, p, r, frame); }, frame); }
PK(32, 1)
PF(32, 1)
PK(32, 2)
PF(32, 2)
PK(32, 3)
PF(32, 3)
PK(32, 4)
PF(32, 4)
PK(32, 5)
PF(32, 5)
PK(32, 6)
PF(32, 6)
PK(32, 7)
PF(32, 7)
PK(32, 8)
PF(32, 8)
PK(32, 9)
PF(32, 9)
PK(32, 10)
PF(32, 10)
PK(32, 11)
PF(32, 11)
PK(32, 12)
PF(32, 12)
PK(32, 13)
PF(32, 13)
PK(32, 14)
PF(32, 14)
PK(32, 15)
PF(32, 15)
PK(32, 16)
PF(32, 16)
PK(32, 17)
PF(32, 17)
PK(32, 18)
PF(32, 18)
PK(32, 19)
PF(32, 19)
PK(32, 20)
PF(32, 20)
PK(32, 21)
PF(32, 21)
PK(32, 22)
PF(32, 22)
PK(32, 23)
PF(32, 23)
PK(32, 24)
PF(32, 24)
PK(32, 25)
PF(32, 25)
PK(32, 26)
PF(32, 26)
PK(32, 27)
PF(32, 27)
PK(32, 28)
PF(32, 28)
PK(32, 29)
PF(32, 29)
PK(32, 30)
PF(32, 30)
PK(32, 31)
PF(32, 31)
PK(32, 32)
PF(32, 32)
void Main() {
  REG1(tPack32_1, uint32_t); REG1MIN(tPackFoR32_1, uint32_t, kFull);
  REG1(tPack32_2, uint32_t); REG1MIN(tPackFoR32_2, uint32_t, kFull);
  REG1(tPack32_3, uint32_t); REG1MIN(tPackFoR32_3, uint32_t, kFull);
  REG1(tPack32_4, uint32_t); REG1MIN(tPackFoR32_4, uint32_t, kFull);
  REG1(tPack32_5, uint32_t); REG1MIN(tPackFoR32_5, uint32_t, kFull);
  REG1(tPack32_6, uint32_t); REG1MIN(tPackFoR32_6, uint32_t, kFull);
  REG1(tPack32_7, uint32_t); REG1MIN(tPackFoR32_7, uint32_t, kFull);
  REG1(tPack32_8, uint32_t); REG1MIN(tPackFoR32_8, uint32_t, kFull);
  REG1(tPack32_9, uint32_t); REG1MIN(tPackFoR32_9, uint32_t, kFull);
  REG1(tPack32_10, uint32_t); REG1MIN(tPackFoR32_10, uint32_t, kFull);
  REG1(tPack32_11, uint32_t); REG1MIN(tPackFoR32_11, uint32_t, kFull);
  REG1(tPack32_12, uint32_t); REG1MIN(tPackFoR32_12, uint32_t, kFull);
  REG1(tPack32_13, uint32_t); REG1MIN(tPackFoR32_13, uint32_t, kFull);
  REG1(tPack32_14, uint32_t); REG1MIN(tPackFoR32_14, uint32_t, kFull);
  REG1(tPack32_15, uint32_t); REG1MIN(tPackFoR32_15, uint32_t, kFull);
  REG1(tPack32_16, uint32_t); REG1MIN(tPackFoR32_16, uint32_t, kFull);
  REG1(tPack32_17, uint32_t); REG1MIN(tPackFoR32_17, uint32_t, kFull);
  REG1(tPack32_18, uint32_t); REG1MIN(tPackFoR32_18, uint32_t, kFull);
  REG1(tPack32_19, uint32_t); REG1MIN(tPackFoR32_19, uint32_t, kFull);
  REG1(tPack32_20, uint32_t); REG1MIN(tPackFoR32_20, uint32_t, kFull);
  REG1(tPack32_21, uint32_t); REG1MIN(tPackFoR32_21, uint32_t, kFull);
  REG1(tPack32_22, uint32_t); REG1MIN(tPackFoR32_22, uint32_t, kFull);
  REG1(tPack32_23, uint32_t); REG1MIN(tPackFoR32_23, uint32_t, kFull);
  REG1(tPack32_24, uint32_t); REG1MIN(tPackFoR32_24, uint32_t, kFull);
  REG1(tPack32_25, uint32_t); REG1MIN(tPackFoR32_25, uint32_t, kFull);
  REG1(tPack32_26, uint32_t); REG1MIN(tPackFoR32_26, uint32_t, kFull);
  REG1(tPack32_27, uint32_t); REG1MIN(tPackFoR32_27, uint32_t, kFull);
  REG1(tPack32_28, uint32_t); REG1MIN(tPackFoR32_28, uint32_t, kFull);
  REG1(tPack32_29, uint32_t); REG1MIN(tPackFoR32_29, uint32_t, kFull);
  REG1(tPack32_30, uint32_t); REG1MIN(tPackFoR32_30, uint32_t, kFull);
  REG1(tPack32_31, uint32_t); REG1MIN(tPackFoR32_31, uint32_t, kFull);
  REG1(tPack32_32, uint32_t); REG1MIN(tPackFoR32_32, uint32_t, kFull);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
