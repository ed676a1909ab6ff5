From a1d4e76c8fb645985f672b22a778ea91cd56efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 01/27] fix: floating-point Ne is true for NaN operands on AVX2
 and AVX3

The ordered predicate _CMP_NEQ_OQ made a != b false when either operand was
NaN, unlike the scalar, SSE and documented a[i] != b[i] behaviour.
---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..2040b97 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..10884f7 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From 9a99d5b513faeaab417cbcf0437c2d80f048639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 02/27] fix: ZeroIfNegative on AVX2 is correct for 256-bit
 integer vectors

---
 hwy/ops/x86_256-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 10884f7..6714246 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1179,9 +1179,9 @@ HWY_API Vec256<T> IfThenZeroElse(Mask256<T> mask, Vec256<T> no) {
   return AndNot(VecFromMask(d, mask), no);
 }
 
-template <typename T>
+// Integers use the generic implementation: their IfThenElse checks each byte.
+template <typename T, HWY_IF_FLOAT3264(T)>
 HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
-  static_assert(IsSigned<T>(), "Only for float");
   const DFromV<decltype(v)> d;
   const auto zero = Zero(d);
   // AVX2 IfThenElse only looks at the MSB for 32/64-bit lanes
-- 
2.43.0


From 675e81d0a3aab93b948c393ddf280b8f04dd67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:34 +0000
Subject: [PATCH 03/27] fix: CompressBitsStore ignores unused mask bits for
 vectors of fewer than eight 8-bit lanes

---
 hwy/ops/generic_ops-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..4c7cfec 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -6036,7 +6036,9 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    size_t bits8 = bits[i / 8];
+    // As with LoadMaskBits, unused bits are treated as if they were zero.
+    if (MaxLanes(d) < 8) bits8 &= (size_t{1} << HWY_MIN(MaxLanes(d), 8)) - 1;
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From 6dccf4c8ef530ad2572f2e1ca9dc6c7d48d89157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 04/27] fix: LoadNOr keeps each lane of no in its position for
 the generic (SSE, EMU128) implementation

---
 hwy/ops/generic_ops-inl.h | 98 ++++++---------------------------------
 1 file changed, 15 insertions(+), 83 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4c7cfec..3aeb4e2 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2462,11 +2462,9 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 1> d1;
-
   if (num_lanes >= 2) return LoadU(d, p);
   if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
+  return InsertLane(no, 0, p[0]);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
@@ -2541,38 +2539,13 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
   if (num_lanes >= 8) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
 
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
+  // Each lane of `no` must remain in its position.
+  const RebindToUnsigned<D> du;
+  const VFromD<D> loaded = LoadN(d, p, num_lanes);
+  return BitCast(d, IfThenElse(FirstN(du, num_lanes), BitCast(du, loaded),
+                               BitCast(du, no)));
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
@@ -2625,54 +2598,13 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
   if (num_lanes >= 16) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
 
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
+  // Each lane of `no` must remain in its position.
+  const RebindToUnsigned<D> du;
+  const VFromD<D> loaded = LoadN(d, p, num_lanes);
+  return BitCast(d, IfThenElse(FirstN(du, num_lanes), BitCast(du, loaded),
+                               BitCast(du, no)));
 }
 
 #if HWY_MAX_BYTES >= 32
@@ -2700,14 +2632,14 @@ HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
 
   const Half<decltype(d)> dh;
   const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
   if (num_lanes <= half_N) {
-    return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
+    const VFromD<decltype(dh)> no_lo = LowerHalf(dh, no);
+    return ConcatUpperLower(
+        d, no, ResizeBitCast(d, LoadNOr(no_lo, dh, p, num_lanes)));
   } else {
     const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
     const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
+        LoadNOr(UpperHalf(dh, no), dh, p + half_N, num_lanes - half_N);
     return Combine(d, v_hi, v_lo);
   }
 }
-- 
2.43.0


From 9f58d0b27dd4f17399bda20f3b924e19775ec572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 05/27] fix: SCALAR MaskedLoad and MaskedLoadOr do not access
 memory where the mask is false

---
 hwy/ops/scalar-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..1a07afc 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1084,13 +1084,14 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+  // Do not access memory if the mask is false (see HWY_MEM_OPS_MIGHT_FAULT).
+  return m.bits ? Load(d, aligned) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
                              const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From c37f30ef273cc31ff2adb4823702912b4e25cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 06/27] fix: generic CLMulLower/CLMulUpper with 16 nonzero
 digits

The sum of 16 partial products carried into the next base-16 digit, e.g. for
a = b = 0x1111111111111111.
---
 hwy/ops/generic_ops-inl.h | 42 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 3aeb4e2..fa49aef 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4359,14 +4359,18 @@ HWY_API V CLMulLower(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
+  // Each 4-bit digit of the products below must hold the number of its nonzero
+  // terms. That is up to 16 if both factors have 16 digits, which would carry
+  // into the next digit, hence the upper digit of b is handled separately.
+  const auto b_lo = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
   const auto a0 = And(a, k1);
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  const auto b0 = And(b_lo, k1);
+  const auto b1 = And(b_lo, k2);
+  const auto b2 = And(b_lo, k4);
+  const auto b3 = And(b_lo, k8);
 
   auto m0 = Xor(MulEven(a0, b0), MulEven(a1, b3));
   auto m1 = Xor(MulEven(a0, b1), MulEven(a1, b0));
@@ -4376,7 +4380,14 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+
+  // Products with (at most) a single bit are exact.
+  const auto h0 = Xor(MulEven(a, And(b, Set(d, 1ULL << 60))),
+                      MulEven(a, And(b, Set(d, 1ULL << 61))));
+  const auto h1 = Xor(MulEven(a, And(b, Set(d, 1ULL << 62))),
+                      MulEven(a, And(b, Set(d, 1ULL << 63))));
+  return Xor(Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))),
+             Xor(h0, h1));
 }
 
 template <class V>
@@ -4387,14 +4398,18 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
+  // Each 4-bit digit of the products below must hold the number of its nonzero
+  // terms. That is up to 16 if both factors have 16 digits, which would carry
+  // into the next digit, hence the upper digit of b is handled separately.
+  const auto b_lo = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
   const auto a0 = And(a, k1);
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  const auto b0 = And(b_lo, k1);
+  const auto b1 = And(b_lo, k2);
+  const auto b2 = And(b_lo, k4);
+  const auto b3 = And(b_lo, k8);
 
   auto m0 = Xor(MulOdd(a0, b0), MulOdd(a1, b3));
   auto m1 = Xor(MulOdd(a0, b1), MulOdd(a1, b0));
@@ -4404,7 +4419,14 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+
+  // Products with (at most) a single bit are exact.
+  const auto h0 = Xor(MulOdd(a, And(b, Set(d, 1ULL << 60))),
+                      MulOdd(a, And(b, Set(d, 1ULL << 61))));
+  const auto h1 = Xor(MulOdd(a, And(b, Set(d, 1ULL << 62))),
+                      MulOdd(a, And(b, Set(d, 1ULL << 63))));
+  return Xor(Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))),
+             Xor(h0, h1));
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From 84d8814a19f29f47de61bfe72560dc7e86aa44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 07/27] fix: EMU128 float division by zero follows IEEE-754
 instead of returning 0

---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..f7c1b72 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] = a.raw[i] / b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From c6648f2510d2a35b424c51189c39e2865fa260c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 08/27] fix: SCALAR and EMU128 NearestInt of 2^31 (f32) and
 2^63 (f64) saturates to LimitsMax

---
 hwy/ops/emu128-inl.h | 3 ++-
 hwy/ops/scalar-inl.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index f7c1b72..5fd4630 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1065,7 +1065,8 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
       // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      // (LimitsMax rounds up to a power of two, which is already out of range.)
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 1a07afc..8f78a2f 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -858,7 +858,8 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
     // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    // (LimitsMax rounds up to a power of two, which is already out of range.)
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
-- 
2.43.0


From 128a2671cafeda33baf255e005570d6c7b9f2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 09/27] fix: SCALAR and EMU128 DemoteToNearestInt of
 (LimitsMin-1, LimitsMin+1) no longer saturates early

---
 hwy/ops/emu128-inl.h | 3 ++-
 hwy/ops/scalar-inl.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 5fd4630..313c9d5 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1106,7 +1106,8 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     // Check if too large to cast or NaN
-    if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    if (!(abs.raw[i] <= (signbit ? -ConvertScalarTo<T>(LimitsMin<TI>())
+                                 : ConvertScalarTo<T>(LimitsMax<TI>())))) {
       ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
       continue;
     }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 8f78a2f..070d461 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -887,7 +887,8 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   // Check if too large to cast or NaN
-  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+  if (!(abs <= (is_sign ? -ConvertScalarTo<T>(LimitsMin<TI>())
+                        : ConvertScalarTo<T>(LimitsMax<TI>())))) {
     return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
   }
 
-- 
2.43.0


From 8a064c35c2962b38c9a51e6a19973c3fb24fd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 10/27] fix: AVX2 NearestInt(double) of +/-(2^52 - 0.5)
 returned 0

Adding 2^52 rounds to 2^53 there, so the exponent is one higher and the
mantissa is zero; subtract 2^52 from the shifted integer instead of
omitting the implicit bit.
---
 hwy/ops/x86_128-inl.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2040b97..65e420b 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11937,15 +11937,20 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
   // adj_v_biased_exp[i] is at least 1075
   const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
 
+  const VI64 implicit_one = Set(di64, 1LL << 52);
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  // Include implicit 1-bit. NOTE: the shift count may exceed 63; we rely on x86
+  // returning zero in that case.
+  const VI64 int53 = mantissa | implicit_one;
+  // If is_small[i], undo the addition of mant_end. This also handles adj_v[i]
+  // having been rounded up to 2 * mant_end, which increments its exponent.
+  const VI64 abs_int =
+      (int53 << shift_int) -
+      IfThenElseZero(RebindMask(di64, is_small), implicit_one);
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-  return ((int53 << shift_int) ^ sign_mask) - sign_mask;
+  return (abs_int ^ sign_mask) - sign_mask;
 }
 #endif  // !HWY_ARCH_X86_64 || HWY_TARGET <= HWY_AVX2
 
-- 
2.43.0


From 2dd661138520fd80f451d5d0faad62add77a08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 11/27] fix: BitSet4096 with kMaxSize not a multiple of 64
 accessed out of bounds

---
 hwy/bit_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/bit_set.h b/hwy/bit_set.h
index f8f921b..29282ea 100644
--- a/hwy/bit_set.h
+++ b/hwy/bit_set.h
@@ -150,7 +150,7 @@ class BitSet4096 {
  private:
   static_assert(kMaxSize <= 64 * 64, "One BitSet64 insufficient");
   BitSet64 nonzero_;
-  BitSet64 bits_[kMaxSize / 64];
+  BitSet64 bits_[(kMaxSize + 63) / 64];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 068fd5fb422f49c84b9bd6162345a244d6e26aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 12/27] fix: Pack16<11> and Pack16<13> did not round-trip

Unpack of the last vector also picked up the bits below the MSBs (11, 13);
Pack16<13>::Pack used the mask 0xE000 instead of 0x8000, and Unpack read
packed9/A instead of packedB/C for raw8, 9, D and E.
---
 hwy/contrib/bit_pack/bit_pack-inl.h | 34 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..2be7b6b 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Mask and shift MSB into the top 3-of-11.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 rawF = Or(downF, Xor3(ShiftRight<7>(And(packed8, msb)),
+                                     ShiftRight<6>(And(packed9, msb)),
+                                     ShiftRight<5>(And(packedA, msb))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
@@ -2120,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2184,21 +2185,22 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Mask and shift MSB into the top 5-of-13.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 p0 = Xor3(ShiftRight<7>(And(packed8, msb)),  //
+                         ShiftRight<6>(And(packed9, msb)),
+                         ShiftRight<5>(And(packedA, msb)));
+    const VU16 p1 = Xor3(ShiftRight<4>(And(packedB, msb)),
+                         ShiftRight<3>(And(packedC, msb)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From f8d01a331042bd895357f9b4b36b9a3e93cdbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:28 +0000
Subject: [PATCH 13/27] fix: VectorXoshiro arrays wrote past the end when the
 length is not a multiple of the vector size

---
 hwy/contrib/random/random-inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..bf8d7f1 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i, n - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +228,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreN(next, tag, result.data() + i, N - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +269,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i, n - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +296,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreN(uniform, real_tag, result.data() + i, N - i);
     }
 
     Store(s0, tag, state_[{0}].data());
-- 
2.43.0


From 033540a3d9e260f9f202cea36f52f214667454ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 14/27] fix: Image3 row accessors did not compile

---
 hwy/contrib/image/image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..d118d27 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -293,9 +293,9 @@ class Image3 {
     // Use the first plane's stride because the compiler might not realize they
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
-    const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    void* row =
+        reinterpret_cast<uint8_t*>(planes_[c].MutableRow(0)) + row_offset;
+    return HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT);
   }
 
  private:
-- 
2.43.0


From ffde08784954ee1334912dfb29461dafb306e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 15/27] fix: ImageBase::BytesPerRow could return a multiple of
 2 KiB

---
 hwy/contrib/image/image.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 75f6528..4e66fe1 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -53,7 +53,7 @@ size_t ImageBase::BytesPerRow(const size_t xsize, const size_t sizeof_t) {
   // only the lower 11 bits. We avoid a false dependency between writes to
   // consecutive rows by ensuring their sizes are not multiples of 2 KiB.
   // Avoid2K prevents the same problem for the planes of an Image3.
-  if (bytes_per_row % HWY_ALIGNMENT == 0) {
+  if (bytes_per_row % 2048 == 0) {
     bytes_per_row += align;
   }
 
-- 
2.43.0


From 232b0503eb354e3847ef7d04b2be018947e5db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 16/27] fix: topology wrote past its buffer for sysfs files of
 200 bytes or more

---
 hwy/contrib/thread_pool/topology.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..4640074 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -403,6 +403,8 @@ class File {
       // read instead of `pread`, which might not work for sysfs.
       const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
       if (bytes_read == 0) {  // EOF: done
+        // No space for the terminator, and more text may follow.
+        if (HWY_UNLIKELY(pos == 200)) return 0;
         buf200[pos++] = '\0';
         return pos;
       }
-- 
2.43.0


From 2ce39f2503b6b8b6f0826dcfd9ecc791be249018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 17/27] fix: topology ParseDigits reported success without any
 digit

---
 hwy/contrib/thread_pool/topology.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 4640074..6b5fce0 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -439,8 +439,9 @@ size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
 // is found, or at end. Returns false if no digits found.
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
+  const size_t begin = pos;
   // 9 digits cannot overflow even 32-bit size_t.
-  const size_t stop = pos + 9;
+  const size_t stop = begin + 9;
   *out = 0;
   for (; pos < HWY_MIN(end, stop); ++pos) {
     const int c = str[pos];
@@ -448,7 +449,7 @@ bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
     *out *= 10;
     *out += static_cast<size_t>(c - '0');
   }
-  if (pos == 0) {  // No digits found
+  if (pos == begin) {  // No digits found
     *out = 0;
     return false;
   }
-- 
2.43.0


From ffa2f9dc2da58cfa2c6d554f0559f6970de93992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 18/27] fix: Topology aborted if a NUMA node has no processors

---
 hwy/contrib/thread_pool/topology.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 6b5fce0..3096b5f 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -570,6 +570,8 @@ std::vector<PackageSizes> DetectPackages(std::vector<Topology::LP>& lps) {
 std::vector<size_t> ExpandList(const char* list, size_t list_end,
                                size_t max_lp) {
   std::vector<size_t> expanded;
+  // NUMA nodes without CPUs have an empty list.
+  if (list_end == 0 || list[0] == '\0' || list[0] == '\n') return expanded;
   constexpr size_t kNotFound = ~size_t{0};
   size_t pos = 0;
 
-- 
2.43.0


From 46e75678336617a69b0bc36c8d18273b8932fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 19/27] fix: topology ExpandList did not reject a descending
 range

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 3096b5f..73864ed 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -610,6 +610,7 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
       ++pos;                 // skip dash
       // Last of range ends with comma or end.
       const size_t lp_range_last = parse_lp(find(','));
+      HWY_ASSERT(lp_range_first <= lp_range_last);
 
       expanded.reserve(expanded.size() + lp_range_last - lp_range_first + 1);
       for (size_t lp = lp_range_first; lp <= lp_range_last; ++lp) {
-- 
2.43.0


From 20a0ebfd9256ad2f09b42ae6d7c1cafca2b7eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:44 +0000
Subject: [PATCH 20/27] fix: median and mode of large values overflowed

---
 hwy/robust_statistics.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..4ab27cd 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -77,6 +77,14 @@ size_t MinRange(const T* const HWY_RESTRICT sorted, const size_t idx_begin,
   return min_idx;
 }
 
+// Returns (lower + upper + 1) / 2 without overflow. Requires lower <= upper.
+template <typename T>
+T RoundedAverage(const T lower, const T upper) {
+  const T range = static_cast<T>(upper - lower);
+  const T half = static_cast<T>(range / 2);
+  return static_cast<T>(lower + half + (range - half - half));
+}
+
 // Returns an estimate of the mode by calling MinRange on successively
 // halved intervals. "sorted" must be in ascending order. This is the
 // Half Sample Mode estimator proposed by Bickel in "On a fast, robust
@@ -97,8 +105,7 @@ T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
     return x;
   }
   HWY_ASSERT(half_count == 1);
-  const T average = (x + sorted[idx_begin + 1] + 1) / 2;
-  return average;
+  return RoundedAverage(x, sorted[idx_begin + 1]);
 }
 
 // Returns the mode. Side effect: sorts "values".
@@ -124,7 +131,7 @@ T Median(T* values, const size_t num_values) {
     return values[half];
   }
   // Even count: return average of middle two.
-  return (values[half] + values[half - 1] + 1) / 2;
+  return RoundedAverage(values[half - 1], values[half]);
 }
 
 // Returns a robust measure of variability.
-- 
2.43.0


From 73101bc6f68efb66a7558ebd74cfb7851b97c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 21/27] fix: AVX10 targets were reported although the OS does
 not save opmask/ZMM state

---
 hwy/targets.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..46c3a1d 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -405,7 +405,9 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    // AVX10 also has opmask registers and requires the same XCR0 bits.
+    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR |
+                                 HWY_AVX10_2 | HWY_AVX10_2_512;
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From 71e8c9077e0cbee2f16cbb193983b84dd85b1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:31 +0000
Subject: [PATCH 22/27] fix: dispatch called disabled targets after
 SupportedTargets

---
 hwy/targets.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 46c3a1d..f61c26f 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -794,10 +794,14 @@ HWY_DLLEXPORT int64_t SupportedTargets() {
     // DisableTargets or SetSupportedTargetsForTest.
     targets = DetectTargets();
 
+    targets &= supported_mask_;
+    if (targets == 0) targets = HWY_STATIC_TARGET;
+
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. Callers other than FunctionCache might not
+    // Update() again, hence exclude the disabled targets.
     GetChosenTarget().Update(targets);
+    return targets;
   }
 
   targets &= supported_mask_;
-- 
2.43.0


From 292cd2a4a6110ba625e04f2ebd80f6253fb64e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:29 +0000
Subject: [PATCH 23/27] fix: ThreadPool ran tasks outside the range if it ends
 close to 2^64

After the last task of a worker, other workers may still increment its
counter, which wrapped around to zero for end = 2^64 - 1 and hence was again
less than the end. Store ranges relative to the first task.
---
 hwy/contrib/thread_pool/thread_pool.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..555ccb4 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -344,7 +344,8 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
                                      static_cast<size_t>(num_victims_));
   }
 
-  // Returns the next task to execute. If >= MyEnd(), it must be skipped.
+  // Returns the next task to execute, relative to the first of all tasks. If
+  // >= MyEnd(), it must be skipped.
   uint64_t WorkerReserveTask() {
     // TODO(janwas): replace with cooperative work-stealing.
     return my_begin_.fetch_add(1, std::memory_order_relaxed);
@@ -470,13 +471,15 @@ class alignas(8) Tasks {
     const size_t remainder =
         static_cast<size_t>(div_workers.Remainder(num_tasks));
 
-    uint64_t my_begin = begin;
+    // Relative to `begin` so that `WorkerReserveTask` does not wrap around if
+    // `end` is close to 2^64.
+    uint64_t my_begin = 0;
     for (size_t worker = 0; worker < num_workers; ++worker) {
       const uint64_t my_end = my_begin + min_tasks + (worker < remainder);
       workers[worker].SetRange(my_begin, my_end);
       my_begin = my_end;
     }
-    HWY_DASSERT(my_begin == end);
+    HWY_DASSERT(my_begin == num_tasks);
   }
 
   // Runs the worker's assigned range of tasks, plus work stealing if needed.
@@ -519,6 +522,7 @@ class alignas(8) Tasks {
   HWY_POOL_PROFILE void WorkerRunWithStealing(Worker* worker) const {
     Worker* workers = worker->AllWorkers();
     const size_t index = worker->Index();
+    const uint64_t begin = begin_.load(kAcq);
     const RunFunc func = Func();
     const void* opaque = Opaque();
 
@@ -540,7 +544,7 @@ class alignas(8) Tasks {
         }
         // Pass the index we are actually running on; this is important
         // because it is the TLS index for user code.
-        func(opaque, task, index);
+        func(opaque, begin + task, index);
       }
     }
   }
-- 
2.43.0


From cedf1809629d067fa3241396aa24f65442f31728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:29 +0000
Subject: [PATCH 24/27] fix: ThreadPool ran an extra task for short ranges
 close to 2^64

begin + worker wraps around if there are more workers than tasks.
---
 hwy/contrib/thread_pool/thread_pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 555ccb4..e652512 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -498,9 +498,10 @@ class alignas(8) Tasks {
     const uint64_t end = end_.load(kAcq);
     HWY_DASSERT(begin <= end);
 
-    const uint64_t task = begin + worker;
-    // We might still have more workers than tasks, so check first.
-    if (HWY_LIKELY(task < end)) {
+    // We might still have more workers than tasks, so check first. Note that
+    // `begin + worker` could wrap around.
+    if (HWY_LIKELY(worker < end - begin)) {
+      const uint64_t task = begin + worker;
       const void* opaque = Opaque();
       const RunFunc func = Func();
       func(opaque, task, worker);
-- 
2.43.0


From ed6557bcedc7c3bfa95a6ce3d0e5528af2ea60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 25/27] fix: ThreadPool barrier counters overlapped with the
 epochs of workers 60..62

BarrierCounter stores counts in barrier_epoch_ of the last workers, which are
also actual workers if there are more than 60 threads. If such a count matches
the epoch of the first barrier after switching to Ordered or Group, the main
thread does not wait for that worker.
---
 hwy/contrib/thread_pool/thread_pool.h | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index e652512..9f7daf8 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -369,6 +369,12 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
   std::atomic<uint32_t>& MutableBarrier() { return barrier_epoch_; }
   void StoreBarrier(uint32_t epoch) { barrier_epoch_.store(epoch, kRel); }
 
+  // Separate from the epoch because with (almost) `kMaxThreads` threads, the
+  // Worker instances used for the counter(s) also have an epoch.
+  const std::atomic<uint32_t>& Arrived() const { return arrived_; }
+  std::atomic<uint32_t>& MutableArrived() { return arrived_; }
+  void ResetArrived() { arrived_.store(0, kRel); }
+
  private:
   // Atomics first because arm7 clang otherwise makes them unaligned.
 
@@ -378,7 +384,8 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
 
   // Use u32 to match futex.h.
   alignas(4) std::atomic<uint32_t> wait_epoch_{0};
-  alignas(4) std::atomic<uint32_t> barrier_epoch_{0};  // is reset
+  alignas(4) std::atomic<uint32_t> barrier_epoch_{0};
+  alignas(4) std::atomic<uint32_t> arrived_{0};  // is reset
 
   uint32_t num_victims_;  // <= kPoolMaxVictims
   std::array<uint32_t, kMaxVictims> victims_;
@@ -389,7 +396,7 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
   const size_t num_threads_;
   Worker* const workers_;
 
-  uint8_t padding_[HWY_ALIGNMENT - 64 - sizeof(victims_)];
+  uint8_t padding_[HWY_ALIGNMENT - 68 - sizeof(victims_)];
 };
 static_assert(sizeof(Worker) == HWY_ALIGNMENT, "");
 
@@ -667,7 +674,7 @@ class BarrierCounter {
     for (size_t i = 0; i < kShards; ++i) {
       // Use last worker(s) to avoid contention with other stores to the Worker.
       // Note that there are kMaxThreads + 1 workers, hence i == 0 is the last.
-      workers[kMaxThreads - i].StoreBarrier(0);
+      workers[kMaxThreads - i].ResetArrived();
     }
   }
 
@@ -676,7 +683,7 @@ class BarrierCounter {
                      uint32_t /*epoch*/) const {
     const size_t shard = worker->Index() & (kShards - 1);
     const auto kAcqRel = std::memory_order_acq_rel;
-    worker->AllWorkers()[kMaxThreads - shard].MutableBarrier().fetch_add(
+    worker->AllWorkers()[kMaxThreads - shard].MutableArrived().fetch_add(
         1, kAcqRel);
   }
 
@@ -685,14 +692,14 @@ class BarrierCounter {
                     uint32_t /*epoch*/) const {
     HWY_IF_CONSTEXPR(kShards == 1) {
       (void)spin.UntilEqual(static_cast<uint32_t>(num_threads),
-                            workers[kMaxThreads].Barrier());
+                            workers[kMaxThreads].Arrived());
     }
     HWY_IF_CONSTEXPR(kShards == 2) {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads - 0].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 1].Arrived().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -700,10 +707,10 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 2].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 3].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads - 0].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 1].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 2].Arrived().load(kAcq) +
+                             workers[kMaxThreads - 3].Arrived().load(kAcq);
         if (sum == num_threads) break;
       }
     }
-- 
2.43.0


From e12f6b9bf3e7b932e5affad51f19430e4f7d0220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:29 +0000
Subject: [PATCH 26/27] fix: Sort of no keys and PartialSort of none or all
 keys accessed keys outside the array

HeapSort with num_lanes = 0 wrapped around, and HeapSelect with k_lanes =
num_lanes reads and writes one key past the end. Both are reached if vqsort
is disabled, for example on HWY_SCALAR. Recurse requires num != 0.
---
 hwy/contrib/sort/vqsort-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..327b4a5 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -232,7 +232,9 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  if (k_lanes == 0) return;
+  // HeapSelect requires `k_lanes` to be the offset of an existing key.
+  if (k_lanes != num_lanes) HeapSelect(st, lanes, num_lanes, k_lanes);
   HeapSort(st, lanes, k_lanes);
 }
 
@@ -2023,8 +2025,10 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
     // TODO: optimize to use kLooseSelect
     detail::Recurse<detail::RecurseMode::kSelect>(d, st, keys, num, buf, state,
                                                   max_levels, k);
-    detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
-                                                max_levels);
+    if (k != 0) {
+      detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
+                                                  max_levels);
+    }
   }
 #else   // !VQSORT_ENABLED
   (void)d;
-- 
2.43.0


From b80a7f28dd8447bd6539af938c0994f42cfc3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:37 +0000
Subject: [PATCH 27/27] fix: PartialSort and Select lost keys if there are NaN

NaN are replaced with the last value in sort order, and the last num_nan
elements were then overwritten with NaN. However, only Sort ensures that those
are the replacements; PartialSort and Select may leave them anywhere behind
the k-th key, so that other keys were lost.
---
 hwy/contrib/sort/vqsort-inl.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 327b4a5..b0b18d6 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1946,12 +1946,33 @@ HWY_INLINE size_t CountAndReplaceNaN(D d, Traits st, T* HWY_RESTRICT keys,
   return num_nan;
 }
 
+// After PartialSort or Select, the `num_nan` sentinels are not necessarily at
+// the back of the array. Moves as many there, which is consistent with the
+// postconditions of both because they are last in the sort order.
+template <class D, class Traits, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE void MoveSentinelsToBack(D d, Traits st, T* HWY_RESTRICT keys,
+                                    size_t num, size_t num_nan) {
+  const T sentinel = GetLane(st.LastValue(d));
+  size_t back = num;
+  for (size_t i = num; i != 0 && back != num - num_nan; --i) {
+    if (keys[i - 1] == sentinel) {
+      --back;
+      keys[i - 1] = keys[back];
+      keys[back] = sentinel;
+    }
+  }
+}
+
 // IsNaN is not implemented for non-float, so skip it.
 template <class D, class Traits, typename T, HWY_IF_NOT_FLOAT(T)>
 HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+template <class D, class Traits, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE void MoveSentinelsToBack(D, Traits, T* HWY_RESTRICT, size_t,
+                                    size_t) {}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2040,6 +2061,7 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
+    detail::MoveSentinelsToBack(d, st, keys, num, num_nan);
     Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
   }
 }
@@ -2081,6 +2103,7 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
+    detail::MoveSentinelsToBack(d, st, keys, num, num_nan);
     Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
   }
 }
-- 
2.43.0

