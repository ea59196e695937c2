// C13: contrib/bit_pack (frame of reference: full vectors only): Pack and Unpack are inverse to each other and stay within their buffers
#include "vp_hwy.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
static constexpr size_t kFull = HWY_TARGET == HWY_SCALAR ? 0 : HWY_MAX_BYTES;
// The arrays have exactly the documented extent: B raw vectors, kBits packed vectors (B = bits per lane).
template <class T, size_t K> constexpr T LowBits() { return static_cast<T>(~T(0)) >> (sizeof(T) * 8 - K); }
template <size_t K, class D, class Pk, class Un> HWY_ATTR void RoundTrip(D, const Pk& pack, const Un& unpack, TFromD<D> frame) {
  using T = TFromD<D>; constexpr size_t B = sizeof(T) * 8, N = kN<D>; constexpr T kMask = LowBits<T, K>();
  { T raw[B * N], packed[K * N], out[B * N]; vp_sym(raw, sizeof(raw), sizeof(T), "raw"); vp_sym(packed, sizeof(packed), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    for (size_t i = 0; i < B * N; i++) raw[i] = static_cast<T>((raw[i] & kMask) + frame);
    pack(raw, packed); unpack(packed, out); vp_eq(out, raw, B * N, sizeof(T), "Unpack(Pack(raw)) == raw"); }
  { T raw[B * N], packed[K * N], out[K * N]; vp_sym(packed, sizeof(packed), sizeof(T), "packed"); vp_sym(raw, sizeof(raw), sizeof(T), "old"); vp_sym(out, sizeof(out), sizeof(T), "old2");
    unpack(packed, raw); T hi[B * N], z[B * N]; for (size_t i = 0; i < B * N; i++) { z[i] = 0; hi[i] = static_cast<T>(static_cast<T>(raw[i] - frame) & static_cast<T>(~kMask)); } vp_eq(hi, z, B * N, sizeof(T), "unpacked values have kBits bits");
    pack(raw, out); vp_eq(out, packed, K * N, sizeof(T), "Pack(Unpack(packed)) == packed"); }
}
#define PK(B, K) VP_OPIF(tPack##B##_##K, B >= 32 || kN<D> * sizeof(TFromD<D>) >= 2) { const Pack##B<K> f; RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.Pack(d, r, p); }, [&](const T* p, T* r) HWY_ATTR { f.Unpack(d, p, r); }, T(0)); }
#define PF(B, K) VP_OP(tPackFoR##B##_##K) { const Pack##B<K> f; const T frame = vp_any<T>("frame"); RoundTrip<K>(d, [&](const T* r, T* p) HWY_ATTR { f.template Pack<D, BlockPackingType::kFoRBitPacked>(d, r, p, frame); }, [&](const T* p, T* r) HWY_ATTR { f.template Unpack<D, BlockPackingType::kFoRBitPacked>(d, p, r, frame); }, frame); }
NOTSCALAR(PK(8, 1))
NOTSCALAR(PK(8, 2))
NOTSCALAR(PK(8, 3))
NOTSCALAR(PK(8, 4))
NOTSCALAR(PK(8, 5))
NOTSCALAR(PK(8, 6))
NOTSCALAR(PK(8, 7))
NOTSCALAR(PK(8, 8))
PK(16, 1)
PK(16, 2)
PK(16, 3)
PK(16, 4)
PK(16, 5)
PK(16, 6)
PK(16, 7)
PK(16, 8)
PK(16, 9)
PK(16, 10)
PK(16, 11)
PK(16, 12)
PK(16, 13)
PK(16, 14)
PK(16, 15)
PK(16, 16)
void Main() {
  NOTSCALAR(REG1(tPack8_1, uint8_t);)
  NOTSCALAR(REG1(tPack8_2, uint8_t);)
  NOTSCALAR(REG1(tPack8_3, uint8_t);)
  NOTSCALAR(REG1(tPack8_4, uint8_t);)
  NOTSCALAR(REG1(tPack8_5, uint8_t);)
  NOTSCALAR(REG1(tPack8_6, uint8_t);)
  NOTSCALAR(REG1(tPack8_7, uint8_t);)
  NOTSCALAR(REG1(tPack8_8, uint8_t);)
  REG1(tPack16_1, uint16_t);
  REG1(tPack16_2, uint16_t);
  REG1(tPack16_3, uint16_t);
  REG1(tPack16_4, uint16_t);
  REG1(tPack16_5, uint16_t);
  REG1(tPack16_6, uint16_t);
  REG1(tPack16_7, uint16_t);
  REG1(tPack16_8, uint16_t);
  REG1(tPack16_9, uint16_t);
  REG1(tPack16_10, uint16_t);
  REG1(tPack16_11, uint16_t);
  REG1(tPack16_12, uint16_t);
  REG1(tPack16_13, uint16_t);
  REG1(tPack16_14, uint16_t);
  REG1(tPack16_15, uint16_t);
  REG1(tPack16_16, uint16_t);
}
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
