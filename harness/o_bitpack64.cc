// C13: contrib/bit_pack (frame of reference: full vectors only): Pack and Unpack are inverse to each other and stay within their buffers
#include "vp_hwy.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
static constexpr size_t kFull = HWY_TARGET == HWY_SCALAR ? 0 : HWY_MAX_BYTES;
// The arrays have exactly the documented extent: B raw vectors, kBits packed vectors (B = bits per lane).
template <class T, size_t K> constexpr T LowBits() { return static_cast<T>(~T(0)) >> (sizeof(T) * 8 - K); }
template <size_t K, class D, class Pk, class Un> HWY_ATTR void RoundTrip(D, const Pk& pack, const Un& unpack, TFromD<D> frame) {
  using T = TFromD<D>; constexpr size_t B = sizeof(T) * 8, N = kN<D>; constexpr T kMask = LowBits<T, K>();
  { T raw[B * N], packed[K * N], out[B * N]; vp_sym(raw, sizeof(raw), sizeof(T), "raw"); vp_sym(packed, sizeof(packed), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    for (size_t i = 0; i < B * N; i++) raw[i] = static_cast<T>((raw[i] & kMask) + frame);
    pack(raw, packed); unpack(packed, out); vp_eq(out, raw, B * N, sizeof(T), "Unpack(Pack(raw)) == raw"); }
  { T raw[B * N], packed[K * N], out[K * N]; vp_sym(packed, sizeof(packed), sizeof(T), "packed"); vp_sym(raw, sizeof(raw), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    unpack(packed, raw); T hi[B * N], z[B * N]; for (size_t i = 0; i < B * N; i++) { z[i] = 0; hi[i] = static_cast<T>(static_cast<T>(raw[i] - frame) & static_cast<T>(~kMask)); } vp_eq(hi, z, B * N, sizeof(T), "unpacked values have kBits bits");
    pack(raw, out); vp_eq(out, packed, K * N, sizeof(T), "Pack(Unpack(packed)) == packed"); }
}
#define PK(B, K) VP_OPIF(tPack##B##_##K, B >= 32 || kN<D> * sizeof(TFromD<D>) >= 2) { const Pack##B<K> f; RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.Pack(d, r, p); }, [&](const T* p, T* r) HWY_ATTR { f.Unpack(d, p, r); }, T(0)); }
#define PF(B, K) VP_OP(tPackFoR##B##_##K) { const Pack##B<K> f; const T frame = vp_any<T>("frame"); RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.template Pack<D, BlockPackingType::kFoRBitPacked>(d, r, p, frame); }, [&](const T* p, T* r) HWY_ATTR { f.template Unpack<D, BlockPackingType::kFoRBitPacked>(d, p, r, frame); }, frame); }
PK(64, 1)
PF(64, 1)
PK(64, 2)
PF(64, 2)
PK(64, 3)
PF(64, 3)
PK(64, 4)
PF(64, 4)
PK(64, 5)
PF(64, 5)
PK(64, 6)
PF(64, 6)
PK(64, 7)
PF(64, 7)
PK(64, 8)
PF(64, 8)
PK(64, 9)
PF(64, 9)
PK(64, 10)
PF(64, 10)
PK(64, 11)
PF(64, 11)
PK(64, 12)
PF(64, 12)
PK(64, 13)
PF(64, 13)
PK(64, 14)
PF(64, 14)
PK(64, 15)
PF(64, 15)
PK(64, 16)
PF(64, 16)
PK(64, 17)
PF(64, 17)
PK(64, 18)
PF(64, 18)
PK(64, 19)
PF(64, 19)
PK(64, 20)
PF(64, 20)
PK(64, 21)
PF(64, 21)
PK(64, 22)
PF(64, 22)
PK(64, 23)
PF(64, 23)
PK(64, 24)
PF(64, 24)
PK(64, 25)
PF(64, 25)
PK(64, 26)
PF(64, 26)
PK(64, 27)
PF(64, 27)
PK(64, 28)
PF(64, 28)
PK(64, 29)
PF(64, 29)
PK(64, 30)
PF(64, 30)
PK(64, 31)
PF(64, 31)
PK(64, 32)
PF(64, 32)
PK(64, 33)
PF(64, 33)
PK(64, 34)
PF(64, 34)
PK(64, 35)
PF(64, 35)
PK(64, 36)
PF(64, 36)
PK(64, 37)
PF(64, 37)
PK(64, 38)
PF(64, 38)
PK(64, 39)
PF(64, 39)
PK(64, 40)
PF(64, 40)
PK(64, 41)
PF(64, 41)
PK(64, 42)
PF(64, 42)
PK(64, 43)
PF(64, 43)
PK(64, 44)
PF(64, 44)
PK(64, 45)
PF(64, 45)
PK(64, 46)
PF(64, 46)
PK(64, 47)
PF(64, 47)
PK(64, 48)
PF(64, 48)
PK(64, 49)
PF(64, 49)
PK(64, 50)
PF(64, 50)
PK(64, 51)
PF(64, 51)
PK(64, 52)
PF(64, 52)
PK(64, 53)
PF(64, 53)
PK(64, 54)
PF(64, 54)
PK(64, 55)
PF(64, 55)
PK(64, 56)
PF(64, 56)
PK(64, 57)
PF(64, 57)
PK(64, 58)
PF(64, 58)
PK(64, 59)
PF(64, 59)
PK(64, 60)
PF(64, 60)
PK(64, 61)
PF(64, 61)
PK(64, 62)
PF(64, 62)
PK(64, 63)
PF(64, 63)
PK(64, 64)
PF(64, 64)
void Main() {
  REG1(tPack64_1, uint64_t); REG1MIN(tPackFoR64_1, uint64_t, kFull);
  REG1(tPack64_2, uint64_t); REG1MIN(tPackFoR64_2, uint64_t, kFull);
  REG1(tPack64_3, uint64_t); REG1MIN(tPackFoR64_3, uint64_t, kFull);
  REG1(tPack64_4, uint64_t); REG1MIN(tPackFoR64_4, uint64_t, kFull);
  REG1(tPack64_5, uint64_t); REG1MIN(tPackFoR64_5, uint64_t, kFull);
  REG1(tPack64_6, uint64_t); REG1MIN(tPackFoR64_6, uint64_t, kFull);
  REG1(tPack64_7, uint64_t); REG1MIN(tPackFoR64_7, uint64_t, kFull);
  REG1(tPack64_8, uint64_t); REG1MIN(tPackFoR64_8, uint64_t, kFull);
  REG1(tPack64_9, uint64_t); REG1MIN(tPackFoR64_9, uint64_t, kFull);
  REG1(tPack64_10, uint64_t); REG1MIN(tPackFoR64_10, uint64_t, kFull);
  REG1(tPack64_11, uint64_t); REG1MIN(tPackFoR64_11, uint64_t, kFull);
  REG1(tPack64_12, uint64_t); REG1MIN(tPackFoR64_12, uint64_t, kFull);
  REG1(tPack64_13, uint64_t); REG1MIN(tPackFoR64_13, uint64_t, kFull);
  REG1(tPack64_14, uint64_t); REG1MIN(tPackFoR64_14, uint64_t, kFull);
  REG1(tPack64_15, uint64_t); REG1MIN(tPackFoR64_15, uint64_t, kFull);
  REG1(tPack64_16, uint64_t); REG1MIN(tPackFoR64_16, uint64_t, kFull);
  REG1(tPack64_17, uint64_t); REG1MIN(tPackFoR64_17, uint64_t, kFull);
  REG1(tPack64_18, uint64_t); REG1MIN(tPackFoR64_18, uint64_t, kFull);
  REG1(tPack64_19, uint64_t); REG1MIN(tPackFoR64_19, uint64_t, kFull);
  REG1(tPack64_20, uint64_t); REG1MIN(tPackFoR64_20, uint64_t, kFull);
  REG1(tPack64_21, uint64_t); REG1MIN(tPackFoR64_21, uint64_t, kFull);
  REG1(tPack64_22, uint64_t); REG1MIN(tPackFoR64_22, uint64_t, kFull);
  REG1(tPack64_23, uint64_t); REG1MIN(tPackFoR64_23, uint64_t, kFull);
  REG1(tPack64_24, uint64_t); REG1MIN(tPackFoR64_24, uint64_t, kFull);
  REG1(tPack64_25, uint64_t); REG1MIN(tPackFoR64_25, uint64_t, kFull);
  REG1(tPack64_26, uint64_t); REG1MIN(tPackFoR64_26, uint64_t, kFull);
  REG1(tPack64_27, uint64_t); REG1MIN(tPackFoR64_27, uint64_t, kFull);
  REG1(tPack64_28, uint64_t); REG1MIN(tPackFoR64_28, uint64_t, kFull);
  REG1(tPack64_29, uint64_t); REG1MIN(tPackFoR64_29, uint64_t, kFull);
  REG1(tPack64_30, uint64_t); REG1MIN(tPackFoR64_30, uint64_t, kFull);
  REG1(tPack64_31, uint64_t); REG1MIN(tPackFoR64_31, uint64_t, kFull);
  REG1(tPack64_32, uint64_t); REG1MIN(tPackFoR64_32, uint64_t, kFull);
  REG1(tPack64_33, uint64_t); REG1MIN(tPackFoR64_33, uint64_t, kFull);
  REG1(tPack64_34, uint64_t); REG1MIN(tPackFoR64_34, uint64_t, kFull);
  REG1(tPack64_35, uint64_t); REG1MIN(tPackFoR64_35, uint64_t, kFull);
  REG1(tPack64_36, uint64_t); REG1MIN(tPackFoR64_36, uint64_t, kFull);
  REG1(tPack64_37, uint64_t); REG1MIN(tPackFoR64_37, uint64_t, kFull);
  REG1(tPack64_38, uint64_t); REG1MIN(tPackFoR64_38, uint64_t, kFull);
  REG1(tPack64_39, uint64_t); REG1MIN(tPackFoR64_39, uint64_t, kFull);
  REG1(tPack64_40, uint64_t); REG1MIN(tPackFoR64_40, uint64_t, kFull);
  REG1(tPack64_41, uint64_t); REG1MIN(tPackFoR64_41, uint64_t, kFull);
  REG1(tPack64_42, uint64_t); REG1MIN(tPackFoR64_42, uint64_t, kFull);
  REG1(tPack64_43, uint64_t); REG1MIN(tPackFoR64_43, uint64_t, kFull);
  REG1(tPack64_44, uint64_t); REG1MIN(tPackFoR64_44, uint64_t, kFull);
  REG1(tPack64_45, uint64_t); REG1MIN(tPackFoR64_45, uint64_t, kFull);
  REG1(tPack64_46, uint64_t); REG1MIN(tPackFoR64_46, uint64_t, kFull);
  REG1(tPack64_47, uint64_t); REG1MIN(tPackFoR64_47, uint64_t, kFull);
  REG1(tPack64_48, uint64_t); REG1MIN(tPackFoR64_48, uint64_t, kFull);
  REG1(tPack64_49, uint64_t); REG1MIN(tPackFoR64_49, uint64_t, kFull);
  REG1(tPack64_50, uint64_t); REG1MIN(tPackFoR64_50, uint64_t, kFull);
  REG1(tPack64_51, uint64_t); REG1MIN(tPackFoR64_51, uint64_t, kFull);
  REG1(tPack64_52, uint64_t); REG1MIN(tPackFoR64_52, uint64_t, kFull);
  REG1(tPack64_53, uint64_t); REG1MIN(tPackFoR64_53, uint64_t, kFull);
  REG1(tPack64_54, uint64_t); REG1MIN(tPackFoR64_54, uint64_t, kFull);
  REG1(tPack64_55, uint64_t); REG1MIN(tPackFoR64_55, uint64_t, kFull);
  REG1(tPack64_56, uint64_t); REG1MIN(tPackFoR64_56, uint64_t, kFull);
  REG1(tPack64_57, uint64_t); REG1MIN(tPackFoR64_57, uint64_t, kFull);
  REG1(tPack64_58, uint64_t); REG1MIN(tPackFoR64_58, uint64_t, kFull);
  REG1(tPack64_59, uint64_t); REG1MIN(tPackFoR64_59, uint64_t, kFull);
  REG1(tPack64_60, uint64_t); REG1MIN(tPackFoR64_60, uint64_t, kFull);
  REG1(tPack64_61, uint64_t); REG1MIN(tPackFoR64_61, uint64_t, kFull);
  REG1(tPack64_62, uint64_t); REG1MIN(tPackFoR64_62, uint64_t, kFull);
  REG1(tPack64_63, uint64_t); REG1MIN(tPackFoR64_63, uint64_t, kFull);
  REG1(tPack64_64, uint64_t); REG1MIN(tPackFoR64_64, uint64_t, kFull);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
