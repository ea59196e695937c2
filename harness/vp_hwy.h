// Brings in the real Highway headers of /repo for one target (VP_TARGET).
// When verifying (VP_VERIFY, clang front end) the GCC branches of the ops headers are
// selected, because those are the ones the build under test compiles.
#pragma once
#include "vp.h"
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <math.h>
#include <cmath>
#include <limits>
#include <type_traits>
#include <utility>
#include <array>
#include <vector>
#include <atomic>
#include <algorithm>
#include <functional>
#include <memory>
#ifdef VP_VERIFY
#include <immintrin.h>
#include "hwy/base.h"
#undef HWY_COMPILER_GCC_ACTUAL
#define HWY_COMPILER_GCC_ACTUAL 1303
#undef HWY_COMPILER_GCC
#define HWY_COMPILER_GCC 1303
#undef HWY_COMPILER_CLANG
#define HWY_COMPILER_CLANG 0
#undef HWY_HAS_BUILTIN
#define VP_HB___builtin_shuffle 1
#define HWY_HAS_BUILTIN(name) (__has_builtin(name) || defined(VP_HB_##name))
#define __builtin_shuffle(...) vp_builtin_shuffle(__VA_ARGS__)
template <class V, class M> __attribute__((always_inline)) static inline V vp_builtin_shuffle(V a, V b, M m) {
  constexpr int n = sizeof(V) / sizeof(a[0]); V r = a;
  for (int i = 0; i < n; i++) { unsigned long long k = (unsigned long long)m[i] & (2 * n - 1); r[i] = k < n ? a[k] : b[k - n]; }
  return r;
}
template <class V, class M> __attribute__((always_inline)) static inline V vp_builtin_shuffle(V a, M m) { return vp_builtin_shuffle(a, a, m); }
#else
#include "hwy/base.h"
#endif
#include "hwy/detect_targets.h"
#undef HWY_TARGET
#define HWY_TARGET VP_TARGET
#include "hwy/highway.h"
