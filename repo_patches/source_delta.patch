From 71de1f5b0a496d6cf5118133a48c721b82f6f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 01/15] fix: AVX3 PromoteMaskTo/CombineMasks leave no bits set
 above the last lane

Bits above the last lane of a partial mask are undefined. They were carried over
into full-vector masks, for which BitsFromMask, AllTrue, AllFalse and CountTrue
expect those bits to be zero.
---
 hwy/ops/x86_128-inl.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..93e423e 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -1022,9 +1022,14 @@ template <class DTo, class DFrom,
           HWY_IF_T_SIZE_GT_D(DTo, sizeof(TFromD<DFrom>)),
           class DFrom_2 = Rebind<TFromD<DFrom>, DTo>,
           hwy::EnableIf<IsSame<MFromD<DFrom>, MFromD<DFrom_2>>()>* = nullptr>
-HWY_API MFromD<DTo> PromoteMaskTo(DTo /*d_to*/, DFrom /*d_from*/,
+HWY_API MFromD<DTo> PromoteMaskTo(DTo d_to, DFrom /*d_from*/,
                                   MFromD<DFrom> m) {
-  return MFromD<DTo>{static_cast<decltype(MFromD<DTo>().raw)>(m.raw)};
+  using RawM = decltype(MFromD<DTo>().raw);
+  constexpr size_t kN = MaxLanes(d_to);
+  // `m` may be partial, in which case its upper bits are undefined, whereas the
+  // bits above the last lane of full vectors must be zero.
+  constexpr uint64_t kActive = kN >= 64 ? ~0ULL : (1ULL << (kN & 63)) - 1;
+  return MFromD<DTo>{static_cast<RawM>(m.raw & kActive)};
 }
 
 // ------------------------------ DemoteMaskTo (MFromD)
@@ -1068,11 +1073,13 @@ HWY_API MFromD<D> CombineMasks(D /*d*/, MFromD<Half<D>> hi,
                                MFromD<Half<D>> lo) {
 #if HWY_COMPILER_HAS_MASK_INTRINSICS
   const __mmask8 combined_mask = _kor_mask8(
-      _kshiftli_mask8(static_cast<__mmask8>(hi.raw), 1),
+      _kshiftli_mask8(
+          _kand_mask8(static_cast<__mmask8>(hi.raw), static_cast<__mmask8>(1)),
+          1),
       _kand_mask8(static_cast<__mmask8>(lo.raw), static_cast<__mmask8>(1)));
 #else
   const auto combined_mask =
-      (static_cast<unsigned>(hi.raw) << 1) | (lo.raw & 1);
+      (static_cast<unsigned>(hi.raw & 1) << 1) | (lo.raw & 1);
 #endif
 
   return MFromD<D>{static_cast<decltype(MFromD<D>().raw)>(combined_mask)};
@@ -1083,11 +1090,13 @@ HWY_API MFromD<D> CombineMasks(D /*d*/, MFromD<Half<D>> hi,
                                MFromD<Half<D>> lo) {
 #if HWY_COMPILER_HAS_MASK_INTRINSICS
   const __mmask8 combined_mask = _kor_mask8(
-      _kshiftli_mask8(static_cast<__mmask8>(hi.raw), 2),
+      _kshiftli_mask8(
+          _kand_mask8(static_cast<__mmask8>(hi.raw), static_cast<__mmask8>(3)),
+          2),
       _kand_mask8(static_cast<__mmask8>(lo.raw), static_cast<__mmask8>(3)));
 #else
   const auto combined_mask =
-      (static_cast<unsigned>(hi.raw) << 2) | (lo.raw & 3);
+      (static_cast<unsigned>(hi.raw & 3) << 2) | (lo.raw & 3);
 #endif
 
   return MFromD<D>{static_cast<decltype(MFromD<D>().raw)>(combined_mask)};
-- 
2.43.0


From ad88608eeb82542c5fe49e46585cbf8781aed454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 02/15] fix: AVX2/AVX3 floating-point Ne returns true if either
 operand is NaN

This is consistent with the C++ operator!= and all other targets, including
SSE2 to SSE4, which use the unordered comparison.
---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 93e423e..0fed037 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2683,19 +2683,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..10884f7 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From c3dfcb284936508a02f3a62e3b54810b1d9a2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 03/15] fix: two-lane LoadNOr keeps lane 1 of `no` instead of
 repeating lane 0

---
 hwy/ops/generic_ops-inl.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..3a34c3e 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2462,11 +2462,9 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 1> d1;
-
   if (num_lanes >= 2) return LoadU(d, p);
   if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
+  return InsertLane(no, 0, p[0]);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
-- 
2.43.0


From 59d0d0cd8aa4a224a93eb64d53cc347992945889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 04/15] fix: LoadNOr of 8 or more lanes takes lane i from
 no[i], not from other lanes of no

---
 hwy/ops/generic_ops-inl.h | 97 +++------------------------------------
 1 file changed, 7 insertions(+), 90 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 3a34c3e..9640724 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2535,44 +2535,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 8) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2619,58 +2581,12 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
+// At least 8 lanes.
+template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_GT_D(D, 4),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 16) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
+  return IfThenElse(FirstN(d, num_lanes), LoadN(d, p, num_lanes), no);
 }
 
 #if HWY_MAX_BYTES >= 32
@@ -2698,14 +2614,15 @@ HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
 
   const Half<decltype(d)> dh;
   const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
   if (num_lanes <= half_N) {
+    const VFromD<decltype(dh)> no_lo = LowerHalf(dh, no);
     return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
+                            ResizeBitCast(d, LoadNOr(no_lo, dh, p, num_lanes)));
   } else {
+    const VFromD<decltype(dh)> no_hi = UpperHalf(dh, no);
     const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
     const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
+        LoadNOr(no_hi, dh, p + half_N, num_lanes - half_N);
     return Combine(d, v_hi, v_lo);
   }
 }
-- 
2.43.0


From 9e5f5a24186fb03c9bc2fc6d3981deb761eda86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 05/15] fix: SCALAR masked loads and gathers do not access
 memory where the mask is false

---
 hwy/ops/scalar-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..e84b15e 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1084,13 +1084,13 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+  return m.bits ? Load(d, aligned) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
                              const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From 122428f9d749dc96c7ca48cc61e38438fa7acf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 06/15] fix: masked/compressing memory ops and gathers of
 partial vectors on AVX2/AVX3 stay within the vector

---
 hwy/ops/x86_128-inl.h  | 88 +++++++++++++++++++++++++++++++++---------
 hwy/ops/x86_avx3-inl.h | 10 ++++-
 2 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 0fed037..0718ef9 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3255,107 +3255,137 @@ HWY_API VFromD<D> InterleaveLower(D /* tag */, VFromD<D> a, VFromD<D> b) {
 
 // ------------------------------ MaskedLoad
 
+#if HWY_TARGET <= HWY_AVX2
+namespace detail {
+
+// For partial vectors, returns `m` with upper mask lanes cleared to prevent
+// memory accesses beyond the vector.
+template <class D, HWY_IF_V_SIZE_LE_D(D, 16)>
+HWY_INLINE MFromD<D> ClearMaskBeyondVector(D d, MFromD<D> m) {
+  if (d.MaxBytes() < 16) m = And(m, FirstN(d, MaxLanes(d)));
+  return m;
+}
+
+}  // namespace detail
+#endif  // HWY_TARGET <= HWY_AVX2
+
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi8(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{_mm_maskz_loadu_epi16(m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi32(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi64(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const float* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_maskz_loadu_ps(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const double* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_maskz_loadu_pd(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_mask_loadu_epi8(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{
                         _mm_mask_loadu_epi16(BitCast(du, v).raw, m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_mask_loadu_epi32(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_mask_loadu_epi64(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const float* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_mask_loadu_ps(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const double* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   return VFromD<D>{_mm_mask_loadu_pd(v.raw, m.raw, p)};
 }
 
 #elif HWY_TARGET == HWY_AVX2
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   auto p_p = reinterpret_cast<const int*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi32(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   auto p_p = reinterpret_cast<const long long*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi64(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const float* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_ps(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const double* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_pd(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
@@ -3670,39 +3700,47 @@ HWY_API void ScalarMaskedStore(VFromD<D> v, MFromD<D> m, D d,
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   _mm_mask_storeu_epi8(p, m.raw, v.raw);
 }
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   _mm_mask_storeu_epi16(reinterpret_cast<uint16_t*>(p), RebindMask(du, m).raw,
                         BitCast(du, v).raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   auto pi = reinterpret_cast<int*>(p);  // NOLINT
   _mm_mask_storeu_epi32(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   auto pi = reinterpret_cast<long long*>(p);  // NOLINT
   _mm_mask_storeu_epi64(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, float* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          float* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   _mm_mask_storeu_ps(p, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, double* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          double* HWY_RESTRICT p) {
+  m = detail::ClearMaskBeyondVector(d, m);
   _mm_mask_storeu_pd(p, m.raw, v.raw);
 }
 
@@ -6256,14 +6294,24 @@ HWY_INLINE Vec128<double, N> NativeMaskedGatherOr128(
 }  // namespace detail
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16)>
-HWY_API VFromD<D> GatherOffset(D /*d*/, const TFromD<D>* HWY_RESTRICT base,
+HWY_API VFromD<D> GatherOffset(D d, const TFromD<D>* HWY_RESTRICT base,
                                VFromD<RebindToSigned<D>> offsets) {
+  // For partial vectors, upper indices are unspecified; do not gather them.
+  if (d.MaxBytes() < 16) {
+    return detail::NativeMaskedGatherOr128<1>(Zero(d), FirstN(d, MaxLanes(d)),
+                                              base, offsets);
+  }
   return detail::NativeGather128<1>(base, offsets);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), typename T = TFromD<D>>
-HWY_API VFromD<D> GatherIndex(D /*d*/, const T* HWY_RESTRICT base,
+HWY_API VFromD<D> GatherIndex(D d, const T* HWY_RESTRICT base,
                               VFromD<RebindToSigned<D>> indices) {
+  // For partial vectors, upper indices are unspecified; do not gather them.
+  if (d.MaxBytes() < 16) {
+    return detail::NativeMaskedGatherOr128<sizeof(T)>(
+        Zero(d), FirstN(d, MaxLanes(d)), base, indices);
+  }
   return detail::NativeGather128<sizeof(T)>(base, indices);
 }
 
@@ -13450,6 +13498,7 @@ HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
+  mask = detail::ClearMaskBeyondVector(d, mask);
   const MFromD<decltype(du)> mu = RebindMask(du, mask);
   return BitCast(d, detail::NativeLoadExpand(mu, du, pu));
 #else
@@ -13465,6 +13514,7 @@ HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
+  mask = detail::ClearMaskBeyondVector(d, mask);
   const MFromD<decltype(du)> mu = RebindMask(du, mask);
   return BitCast(d, detail::NativeLoadExpand(mu, du, pu));
 #else
diff --git a/hwy/ops/x86_avx3-inl.h b/hwy/ops/x86_avx3-inl.h
index 7d4a8fc..dae60c1 100644
--- a/hwy/ops/x86_avx3-inl.h
+++ b/hwy/ops/x86_avx3-inl.h
@@ -413,6 +413,9 @@ HWY_API V CompressBits(V v, const uint8_t* HWY_RESTRICT bits) {
 template <class D, HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 1) | (1 << 2))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -435,6 +438,9 @@ template <class D, HWY_IF_NOT_FLOAT_D(D),
           HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 4) | (1 << 8))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -453,10 +459,12 @@ HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
 template <class D, HWY_IF_FLOAT3264_D(D)>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
-  (void)d;
   detail::NativeCompressStore(v, mask, unaligned);
 #endif  // HWY_X86_SLOW_COMPRESS_STORE
   const size_t count = PopCount(uint64_t{mask.raw});
-- 
2.43.0


From ddc11849bb020467f01e73a5ce53103e0ab54d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 07/15] fix: 8-bit CompressBitsStore ignores unused mask bits
 of vectors with fewer than 8 lanes

---
 hwy/ops/generic_ops-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 9640724..e3d3f5c 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -5951,7 +5951,8 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    // Unused bits (for less than 8 lanes) are treated as if they were zero.
+    const size_t bits8 = bits[i / 8] & ((size_t{1} << MaxLanes(d8)) - 1);
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From 58a98f77936f13c3674305294e3113b7ffd1bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 08/15] fix: PromoteTo f16 to f32 without F16C keeps Inf and
 NaN

---
 hwy/ops/generic_ops-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index e3d3f5c..0094514 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -3304,7 +3304,10 @@ HWY_API VFromD<D> PromoteTo(D df32, VFromD<Rebind<float16_t, D>> v) {
       BitCast(du32, Mul(ConvertTo(df32, BitCast(di32, mantissa)),
                         Set(df32, 1.0f / 16384 / 1024)));
 
-  const VU32 biased_exp32 = Add(biased_exp, Set(du32, 127 - 15));
+  // Inf and NaN keep the maximal exponent.
+  const VU32 biased_exp32 = IfThenElse(Eq(biased_exp, Set(du32, 0x1F)),
+                                       Set(du32, 0xFF),
+                                       Add(biased_exp, Set(du32, 127 - 15)));
   const VU32 mantissa32 = ShiftLeft<23 - 10>(mantissa);
   const VU32 normal = Or(ShiftLeft<23>(biased_exp32), mantissa32);
   const VU32 bits32 = IfThenElse(Eq(biased_exp, Zero(du32)), subnormal, normal);
-- 
2.43.0


From d584ce2e187348efebea0245d42f639e68b01142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 09/15] fix: SCALAR/EMU128 Round, NearestInt and
 DemoteToNearestInt round values just below 0.5 to 0 and saturate exactly at
 the limits

---
 hwy/ops/emu128-inl.h | 16 ++++++++--------
 hwy/ops/scalar-inl.h | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..73b2478 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1041,9 +1041,9 @@ HWY_API Vec128<T, N> Round(Vec128<T, N> v) {
       continue;
     }
     const T rounded_f = ConvertScalarTo<T>(rounded);
-    // Round to even
+    // Round to even (also undoes rounding up by v + bias just below 0.5)
     if ((rounded & 1) &&
-        ScalarAbs(rounded_f - v.raw[i]) == ConvertScalarTo<T>(0.5)) {
+        ScalarAbs(rounded_f - v.raw[i]) >= ConvertScalarTo<T>(0.5)) {
       v.raw[i] = ConvertScalarTo<T>(rounded - (v.raw[i] < k0 ? -1 : 1));
       continue;
     }
@@ -1065,7 +1065,7 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
       // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
@@ -1079,9 +1079,9 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
       continue;
     }
     const T rounded_f = ConvertScalarTo<T>(rounded);
-    // Round to even
+    // Round to even (also undoes rounding up by v + bias just below 0.5)
     if ((rounded & 1) &&
-        ScalarAbs(rounded_f - v.raw[i]) == ConvertScalarTo<T>(0.5)) {
+        ScalarAbs(rounded_f - v.raw[i]) >= ConvertScalarTo<T>(0.5)) {
       ret.raw[i] = rounded - (signbit ? -1 : 1);
       continue;
     }
@@ -1105,7 +1105,7 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     // Check if too large to cast or NaN
-    if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()) + 0.5)) {
       ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
       continue;
     }
@@ -1117,9 +1117,9 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
       continue;
     }
     const T rounded_f = ConvertScalarTo<T>(rounded);
-    // Round to even
+    // Round to even (also undoes rounding up by v + bias just below 0.5)
     if ((rounded & 1) &&
-        ScalarAbs(rounded_f - v.raw[i]) == ConvertScalarTo<T>(0.5)) {
+        ScalarAbs(rounded_f - v.raw[i]) >= ConvertScalarTo<T>(0.5)) {
       ret.raw[i] = rounded - (signbit ? -1 : 1);
       continue;
     }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index e84b15e..6171baa 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -840,8 +840,8 @@ HWY_API Vec1<T> Round(const Vec1<T> v) {
   const TI rounded = ConvertScalarTo<TI>(v.raw + bias);
   if (rounded == 0) return CopySignToAbs(Vec1<T>(k0), v);
   TI offset = 0;
-  // Round to even
-  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) ==
+  // Round to even (also undoes rounding up by v + bias just below 0.5)
+  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) >=
                            ConvertScalarTo<T>(0.5)) {
     offset = v.raw < k0 ? -1 : 1;
   }
@@ -858,7 +858,7 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
     // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
@@ -868,8 +868,8 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
   const TI rounded = ConvertScalarTo<TI>(v.raw + bias);
   if (rounded == 0) return Vec1<TI>(0);
   TI offset = 0;
-  // Round to even
-  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) ==
+  // Round to even (also undoes rounding up by v + bias just below 0.5)
+  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) >=
                            ConvertScalarTo<T>(0.5)) {
     offset = is_sign ? -1 : 1;
   }
@@ -886,7 +886,7 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   // Check if too large to cast or NaN
-  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+  if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()) + 0.5)) {
     return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
   }
 
@@ -895,8 +895,8 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   const TI rounded = ConvertScalarTo<TI>(v.raw + bias);
   if (rounded == 0) return Vec1<TI>(0);
   TI offset = 0;
-  // Round to even
-  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) ==
+  // Round to even (also undoes rounding up by v + bias just below 0.5)
+  if ((rounded & 1) && ScalarAbs(ConvertScalarTo<T>(rounded) - v.raw) >=
                            ConvertScalarTo<T>(0.5)) {
     offset = is_sign ? -1 : 1;
   }
-- 
2.43.0


From be67170899d0d0e0d671ea990f1a6fe08f909e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 10/15] fix: AVX2 NearestInt of four f64 lanes returns 2^52,
 not 0, for values that round up to 2^52

---
 hwy/ops/x86_128-inl.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 0718ef9..9585cee 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11995,14 +11995,18 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
   const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
 
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  // Include implicit 1-bit. NOTE: the shift count may exceed 63; we rely on x86
+  // returning zero in that case.
+  const VI64 implicit_bit = Set(di64, 1LL << 52);
+  const VI64 int53 = mantissa | implicit_bit;
+  // Undo adding mant_end. NOTE: adj_v is 2^53 if v was rounded up to mant_end.
+  const VI64 magnitude =
+      (int53 << shift_int) -
+      IfThenElseZero(RebindMask(di64, is_small), implicit_bit);
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-  return ((int53 << shift_int) ^ sign_mask) - sign_mask;
+  return (magnitude ^ sign_mask) - sign_mask;
 }
 #endif  // !HWY_ARCH_X86_64 || HWY_TARGET <= HWY_AVX2
 
-- 
2.43.0


From ff553cea323c257bb4d8aeb0bbe180be98a76d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 11/15] fix: EMU128 floating-point division by zero returns
 infinity or NaN as on all other targets, not zero

---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 73b2478..d163f80 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] = a.raw[i] / b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From 1994e1b2ce83a0bd445d9ce5199ff692f9dd8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 12/15] fix: emulated CLMulLower/CLMulUpper return the correct
 upper half for operands with 16 set bits spaced four apart

---
 hwy/ops/generic_ops-inl.h | 56 ++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 0094514..ee1dca8 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4334,6 +4334,32 @@ HWY_API V AESKeyGenAssist(V v) {
   return Xor(rot_word_result, rconXorMask);
 }
 
+namespace detail {
+
+// Returns all-ones in lanes whose most-significant bit is set, otherwise zero.
+template <class V>
+HWY_INLINE V CLMulSign(V v) {
+  const DFromV<V> d;
+  const RebindToSigned<decltype(d)> di;
+  return BitCast(d, BroadcastSignBit(BitCast(di, v)));
+}
+
+// Returns the 128-bit carryless products of `a` and the upper four bits of `b`.
+// Both lanes of each 128-bit block of the inputs are equal.
+template <class V>
+HWY_INLINE V CLMulTop4(V a, V b) {
+  const auto p0 = OddEven(ShiftRight<4>(a), ShiftLeft<60>(a));
+  const auto p1 = OddEven(ShiftRight<3>(a), ShiftLeft<61>(a));
+  const auto p2 = OddEven(ShiftRight<2>(a), ShiftLeft<62>(a));
+  const auto p3 = OddEven(ShiftRight<1>(a), ShiftLeft<63>(a));
+  return Xor(Xor(And(p0, CLMulSign(ShiftLeft<3>(b))),
+                 And(p1, CLMulSign(ShiftLeft<2>(b)))),
+             Xor(And(p2, CLMulSign(ShiftLeft<1>(b))),
+                 And(p3, CLMulSign(b))));
+}
+
+}  // namespace detail
+
 // Constant-time implementation inspired by
 // https://www.bearssl.org/constanttime.html, but about half the cost because we
 // use 64x64 multiplies and 128-bit XORs.
@@ -4349,10 +4375,14 @@ HWY_API V CLMulLower(V a, V b) {
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  // Each bit of the products is the sum of up to 16 terms, which would overflow
+  // into the next group of four bits. Prevent this by excluding the upper four
+  // bits of b, which are handled separately below.
+  const auto bl = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
+  const auto b0 = And(bl, k1);
+  const auto b1 = And(bl, k2);
+  const auto b2 = And(bl, k4);
+  const auto b3 = And(bl, k8);
 
   auto m0 = Xor(MulEven(a0, b0), MulEven(a1, b3));
   auto m1 = Xor(MulEven(a0, b1), MulEven(a1, b0));
@@ -4362,7 +4392,8 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto lo = Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  return Xor(lo, detail::CLMulTop4(DupEven(a), DupEven(b)));
 }
 
 template <class V>
@@ -4377,10 +4408,14 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  // Each bit of the products is the sum of up to 16 terms, which would overflow
+  // into the next group of four bits. Prevent this by excluding the upper four
+  // bits of b, which are handled separately below.
+  const auto bl = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
+  const auto b0 = And(bl, k1);
+  const auto b1 = And(bl, k2);
+  const auto b2 = And(bl, k4);
+  const auto b3 = And(bl, k8);
 
   auto m0 = Xor(MulOdd(a0, b0), MulOdd(a1, b3));
   auto m1 = Xor(MulOdd(a0, b1), MulOdd(a1, b0));
@@ -4390,7 +4425,8 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto lo = Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  return Xor(lo, detail::CLMulTop4(DupOdd(a), DupOdd(b)));
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From 733124950e102d10d03b1de3f98b7974df4d1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:52 +0000
Subject: [PATCH 13/15] fix: Pack16<11>::Unpack mixed bits of other lanes into
 the last vector

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..8c83c4d 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Mask the MSB and shift it into the top 3-of-11.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 rawF = Or(downF, Xor3(ShiftRight<7>(And(packed8, msb)),
+                                     ShiftRight<6>(And(packed9, msb)),
+                                     ShiftRight<5>(And(packedA, msb))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
-- 
2.43.0


From 7be16f4def10afc2ecb0e19cd852a859f9615330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:52 +0000
Subject: [PATCH 14/15] fix: Pack16<13> lost and mixed up bits of most vectors

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 8c83c4d..d6f7a39 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -2121,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2185,21 +2185,22 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Mask the MSB and shift it into the top 5-of-13.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 p0 = Xor3(ShiftRight<7>(And(packed8, msb)),
+                         ShiftRight<6>(And(packed9, msb)),
+                         ShiftRight<5>(And(packedA, msb)));
+    const VU16 p1 = Xor3(ShiftRight<4>(And(packedB, msb)),
+                         ShiftRight<3>(And(packedC, msb)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From a8a8668b64402778fcd1b872124c911083c73ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:42 +0000
Subject: [PATCH 15/15] fix: VectorXoshiro wrote beyond results whose size is
 not a multiple of the vector size

---
 hwy/contrib/random/random-inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..bf8d7f1 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i, n - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +228,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i, N - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +269,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i, n - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +296,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i, N - i);
     }
 
     Store(s0, tag, state_[{0}].data());
-- 
2.43.0

