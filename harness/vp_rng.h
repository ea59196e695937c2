// Shared by the engine (concrete mode) and the native replay runtime.
#pragma once
#include <stdint.h>
static inline uint64_t vp_mix64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static inline uint64_t vp_rand_elem(uint64_t seed, uint64_t input, uint64_t i, unsigned es) {
  static const uint64_t c64[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  static const uint64_t c32[] = {0x7f800000, 0xff800000, 0x7fc00001, 0x3f800000, 0x4f000000, 0xcf000000, 0x4effffff, 0x5f000000, 0x4f800000, 0x3f000000, 0x3fc00000, 0x80000000, 0x00000001, 0x42280000, 0xc2290000};
  static const uint64_t cd[] = {0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000001ull, 0x3ff0000000000000ull, 0x41e0000000000000ull, 0xc1e0000000000000ull, 0x43e0000000000000ull, 0xc3e0000000000000ull, 0x43f0000000000000ull, 0x3fe0000000000000ull, 0x3ff8000000000000ull, 0x4045000000000000ull, 0xc045200000000000ull, 0x41dfffffffc00000ull, 0x41efffffffe00000ull};
  static const uint64_t c16[] = {0x7c00, 0xfc00, 0x7e00, 0x3c00, 0x0001, 0x8001, 0x7bff, 0x0400};
  uint64_t r = vp_mix64(seed * 0x100000001b3ull + input * 0x10001 + i), q = vp_mix64(r);
  uint64_t v = q; unsigned mode = (seed + (r >> 60)) % 4;
  if (mode == 1) v = c64[(r >> 8) % 15];
  else if (mode == 2) { if (es == 4) v = c32[(r >> 8) % 15]; else if (es == 8) v = cd[(r >> 8) % 15]; else if (es == 2) v = c16[(r >> 8) % 8]; }
  else if (mode == 3) { v = (r >> 8) & 15; if (es == 4 && (r & 2)) { union { float f; uint32_t u; } x; x.f = (float)(int64_t)(int32_t)(uint32_t)q / 256.0f; v = x.u; } else if (es == 8 && (r & 2)) { union { double f; uint64_t u; } x; x.f = (double)(int64_t)(q >> 20) / 64.0; v = x.u; } else if (r & 1) v = ~v; }
  return es >= 8 ? v : v & ((1ull << (es * 8)) - 1);
}
