// C16: aligned allocation: alignment, containment, bookkeeping, element lifetimes and overflow checks
// vp-native: no-aligned_allocator
#include "vp_hwy.h"
#include "hwy/aligned_allocator.h"
#include "hwy/aligned_allocator.cc"
#ifdef VP_VERIFY
namespace hwy { size_t VectorBytes() { return 64; } }
#endif
#include "ops_common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vp {
// Custom allocator: returns memory at an arbitrary address (any misalignment) or null. Only the bookkeeping is ever touched.
alignas(4096) static uint8_t gBuf[8192];
static void* gRaw; static size_t gBytes; static void* gFreed; static size_t gFrees, gAllocs; static void* gOpaque; static size_t gShift; static bool gNull;
static void* Alloc(void* opaque, size_t bytes) { gOpaque = opaque; gBytes = bytes; gAllocs++; gRaw = gNull ? nullptr : gBuf + gShift; return gRaw; }
static void Free(void* opaque, void* p) { gOpaque = opaque; gFreed = p; gFrees++; }
static int gTag;
static void Begin() { gShift = vp_any<uint16_t>("misalignment") & 1023; gNull = false; gRaw = gFreed = nullptr; gFrees = gAllocs = 0; gBytes = 0; gOpaque = nullptr; const uintptr_t at = reinterpret_cast<uintptr_t>(gBuf + gShift) - gShift; vp_assume(at >= 4096 && at < (size_t(1) << 47)); }
static constexpr size_t kLimit = (~size_t(0)) / 2;
// ptr: the result of allocating p bytes
static void Placed(const void* ptr, size_t p) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(ptr), r = reinterpret_cast<uintptr_t>(gRaw);
  vp_check(a % HWY_ALIGNMENT == 0, "aligned"); vp_check(gBytes >= p, "size does not wrap"); const size_t off = a - r;
  vp_check(off >= 2 * sizeof(void*) && off <= gBytes - p, "header and payload lie within the allocation"); vp_check(gOpaque == &gTag, "opaque pointer of the allocation");
}
static void tAllocate() {
  // every position in the cycle of offsets
  for (int k = 0; k < 17; k++) {
    Begin(); const size_t p = vp_any<size_t>("size"); vp_assume(p != 0 && p < kLimit);
    void* ptr = AllocateAlignedBytes(p, &Alloc, &gTag); vp_check(ptr != nullptr && gAllocs == 1, "allocates once"); Placed(ptr, p);
    vp_check(gFrees == 0, "nothing freed"); FreeAlignedBytes(ptr, &Free, gBuf); vp_check(gFrees == 1 && gFreed == gRaw && gOpaque == gBuf, "frees the original pointer once");
  }
}
static void tFail() {
  Begin(); size_t p = vp_any<size_t>("size"); vp_assume(p != 0 && p < kLimit); gNull = true; vp_check(AllocateAlignedBytes(p, &Alloc, &gTag) == nullptr, "null if the allocator fails");
  const size_t q = vp_any<size_t>("huge"); vp_assume(q >= kLimit); gAllocs = 0; vp_check(AllocateAlignedBytes(q, &Alloc, &gTag) == nullptr && gAllocs == 0, "null for a huge size");
  gFrees = 0; FreeAlignedBytes(nullptr, &Free, &gTag); vp_check(gFrees == 0, "free of null");
}
// items * sizeof(T) must not wrap
template <size_t kSize> struct Blob { uint8_t b[kSize]; };
template <size_t kSize> static void tItems() {
  Begin(); const size_t n = vp_any<size_t>("items"); vp_assume(n != 0); using u128 = unsigned __int128; const bool fits = n <= (kLimit - 1) / kSize;
  { auto a = AllocateAligned<Blob<kSize>>(n, &Alloc, &Free, &gTag); vp_check((a.get() != nullptr) == fits, "allocates unless the size overflows"); if (fits) Placed(a.get(), n * kSize); }
  vp_check(gFrees == (fits ? 1 : 0), "freed once"); if (fits) vp_check(gFreed == gRaw && gOpaque == &gTag, "frees the original pointer");
}
// every element is constructed and destroyed exactly once
static size_t gCtor, gDtor; static uintptr_t gNext, gNextD; static size_t gStep; static bool gOrder;
template <size_t kSize> struct Counted { uint8_t b[kSize]; explicit Counted(int x) { gOrder = gOrder && x == 42 && reinterpret_cast<uintptr_t>(this) == gNext; if (gCtor == 0) { gOrder = true; gNextD = reinterpret_cast<uintptr_t>(this); gNext = gNextD; } gNext += kSize; gCtor++; }
  ~Counted() { gOrder = gOrder && reinterpret_cast<uintptr_t>(this) == gNextD; gNextD += kSize; gDtor++; } };
template <size_t kSize> static void tLifetime() {
  for (size_t n = 1; n <= 5; n++) { Begin(); gCtor = gDtor = 0; gOrder = true; uintptr_t first = 0;
    { auto a = MakeUniqueAlignedArrayWithAlloc<Counted<kSize>>(n, &Alloc, &Free, &gTag, 42); first = reinterpret_cast<uintptr_t>(a.get()); Placed(a.get(), n * kSize); vp_check(gCtor == n && gNext == first + n * kSize, "constructs every element"); vp_check(gFrees == 0 && gDtor == 0, "alive"); }
    vp_check(gOrder && gDtor == n && gNextD == first + n * kSize, "destroys every element once"); vp_check(gFrees == 1 && gFreed == gRaw && gOpaque == &gTag, "frees the original pointer once"); }
  { Begin(); gCtor = gDtor = 0; { auto a = MakeUniqueAlignedWithAlloc<Counted<kSize>>(&Alloc, &Free, &gTag, 42); Placed(a.get(), kSize); vp_check(gCtor == 1, "constructs one"); } vp_check(gDtor == 1 && gFrees == 1 && gFreed == gRaw, "destroys and frees one"); }
}
// the default allocator
static void tDefault() { for (size_t p = 1; p < 40; p += 13) { uint8_t* a = static_cast<uint8_t*>(AllocateAlignedBytes(p)); vp_check(reinterpret_cast<uintptr_t>(a) % HWY_ALIGNMENT == 0, "aligned"); for (size_t i = 0; i < p; i++) a[i] = uint8_t(i); for (size_t i = 0; i < p; i++) ExpectS<uint8_t>(a[i], uint8_t(i), "stored bytes"); FreeAlignedBytes(a, nullptr, nullptr); }
  AlignedVector<uint32_t> v(7); vp_check(reinterpret_cast<uintptr_t>(v.data()) % HWY_ALIGNMENT == 0, "vector aligned"); for (size_t i = 0; i < 7; i++) v[i] = 1; }
// multidimensional arrays: rows are disjoint, inside the buffer, aligned and zero
template <class A, size_t d0, size_t d1, size_t d2> static void NDArray() {
  A arr({d0, d1, d2}); ExpectS<size_t>(arr.size(), d0 * d1 * d2, "size"); const size_t i = vp_size("i", d0 - 1), j = vp_size("j", d1 - 1), k = vp_size("k", d0 - 1), l = vp_size("l", d1 - 1);
  vp_split(&i, 1, 8, 0, d0); vp_split(&j, 1, 8, 0, d1); vp_split(&k, 1, 8, 0, d0); vp_split(&l, 1, 8, 0, d1);
  using T = typename std::remove_reference<decltype(*arr.data())>::type;
  auto s = arr[{i, j}]; const size_t a = static_cast<size_t>(s.data() - arr.data()), b = static_cast<size_t>(arr[{k, l}].data() - arr.data()); ExpectS<size_t>(s.size(), d2, "row size"); vp_check(a + d2 <= arr.memory_size(), "row within the buffer"); vp_check(a * sizeof(T) % VectorBytes() == 0, "row aligned");
  vp_check((i == k && j == l) ? a == b : a + d2 <= b || b + d2 <= a, "rows disjoint");
  const size_t e = vp_size("e", d2 - 1); ExpectS<T>(s[e], T(0), "zero"); const T x = vp_any<T>("x"); s[e] = x; ExpectS<T>(arr[{i, j}][e], x, "element read back"); ExpectS<T>(arr[{k, l}][e], i == k && j == l ? x : T(0), "other elements unchanged");
  if (d1 > 1) { arr.truncate({d0, d1 - 1, d2 - 1}); ExpectS<size_t>(arr.shape()[2], d2 - 1, "truncated shape"); ExpectS<size_t>(arr.size(), d0 * (d1 - 1) * (d2 - 1), "truncated size"); auto t = arr[{i, size_t(0)}]; ExpectS<size_t>(t.size(), d2 - 1, "truncated row"); if (j == 0 && e < d2 - 1) ExpectS<T>(t[e < d2 - 1 ? e : 0], x, "truncation keeps elements"); }
}
static void tNDArray() { NDArray<AlignedNDArray<float, 3>, 3, 2, 5>(); }
static void tNDArray1() { NDArray<AlignedNDArray<uint8_t, 3>, 2, 3, 70>(); }
#define ENT(N, F) vp_entry(N, F)
void Main() { ENT("tAllocate", tAllocate); ENT("tFail", tFail); ENT("tItems<1>", tItems<1>); ENT("tItems<4>", tItems<4>); ENT("tItems<8>", tItems<8>); ENT("tItems<12>", tItems<12>); ENT("tItems<48>", tItems<48>); ENT("tLifetime<1>", tLifetime<1>); ENT("tLifetime<3>", tLifetime<3>); ENT("tLifetime<16>", tLifetime<16>); ENT("tLifetime<24>", tLifetime<24>); ENT("tDefault", tDefault); ENT("tNDArray", tNDArray); ENT("tNDArray1", tNDArray1); }
}}}
HWY_AFTER_NAMESPACE();
extern "C" void vp_main() { hwy::HWY_NAMESPACE::vp::Main(); }
