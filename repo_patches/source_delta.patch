From 9bbd5ae6dd66390848bcce7948a42c4c1a8aa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/40] fix: EMU128 floating-point division by zero returned 0
 instead of the IEEE result

---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..f5bb41a 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] /= b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From 7bd4744aac033fd930827fc437fc567c76a845b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 02/40] fix: Ne on AVX2/AVX3 float vectors returned false when
 an operand is NaN

---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..2040b97 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..10884f7 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From 1d0084f8fb859616555554cf60f3331b189cee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/40] fix: ZeroIfNegative on 256-bit integer vectors zeroed
 individual bytes on AVX2

---
 hwy/ops/x86_256-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 10884f7..c963271 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1179,9 +1179,10 @@ HWY_API Vec256<T> IfThenZeroElse(Mask256<T> mask, Vec256<T> no) {
   return AndNot(VecFromMask(d, mask), no);
 }
 
-template <typename T>
+// For integer lanes, use the generic implementation: AVX2 IfThenElse selects
+// individual bytes of integer vectors.
+template <typename T, HWY_IF_FLOAT(T)>
 HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
-  static_assert(IsSigned<T>(), "Only for float");
   const DFromV<decltype(v)> d;
   const auto zero = Zero(d);
   // AVX2 IfThenElse only looks at the MSB for 32/64-bit lanes
-- 
2.43.0


From 3a96ff6b10a744b4d513e0f2cfb9ba1f0e921842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 04/40] fix: NearestInt f64->i64 on AVX2 returned 0 when
 rounding up to 2^52

---
 hwy/ops/x86_128-inl.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2040b97..00a71b9 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11938,14 +11938,19 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
   const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
 
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  const VI64 implicit_bit = Set(di64, 1LL << 52);
+  // Include the implicit 1-bit; this also handles small v[i] which round up to
+  // MantissaEnd, in which case adj_v[i] is 2 * MantissaEnd. NOTE: the shift
+  // count may exceed 63; we rely on x86 returning zero in that case.
+  const VI64 int53 = mantissa | implicit_bit;
+  // If is_small[i], undo the addition of mant_end.
+  const VI64 magnitude =
+      (int53 << shift_int) -
+      IfThenElseZero(RebindMask(di64, is_small), implicit_bit);
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-  return ((int53 << shift_int) ^ sign_mask) - sign_mask;
+  return (magnitude ^ sign_mask) - sign_mask;
 }
 #endif  // !HWY_ARCH_X86_64 || HWY_TARGET <= HWY_AVX2
 
-- 
2.43.0


From e34444f2ce2e2a7282abc012457f3a6e019f5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 05/40] fix: NearestInt/DemoteToNearestInt on EMU128/SCALAR
 near the integer limits

---
 hwy/ops/emu128-inl.h | 9 ++++++---
 hwy/ops/scalar-inl.h | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index f5bb41a..d4b3a8d 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1064,8 +1064,9 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
-      // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      // Check if too large to cast or NaN. The limit is rounded up to a power
+      // of two, hence abs must be less than it.
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
@@ -1105,7 +1106,9 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     // Check if too large to cast or NaN
-    if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    const T limit = signbit ? -ConvertScalarTo<T>(LimitsMin<TI>())
+                            : ConvertScalarTo<T>(LimitsMax<TI>());
+    if (!(abs.raw[i] <= limit)) {
       ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
       continue;
     }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..73be5d5 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -857,8 +857,9 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
-    // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    // Check if too large to cast or NaN. The limit is rounded up to a power of
+    // two, hence abs must be less than it.
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
@@ -886,7 +887,9 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   // Check if too large to cast or NaN
-  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+  const T limit = is_sign ? -ConvertScalarTo<T>(LimitsMin<TI>())
+                          : ConvertScalarTo<T>(LimitsMax<TI>());
+  if (!(abs <= limit)) {
     return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
   }
 
-- 
2.43.0


From 1c2e5e89713f4679e027e2a83913e44e7fa7a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 06/40] fix: PromoteTo f16->f32 without F16C mapped
 infinity/NaN to finite values

---
 hwy/ops/generic_ops-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..c72b0cd 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -3389,7 +3389,9 @@ HWY_API VFromD<D> PromoteTo(D df32, VFromD<Rebind<float16_t, D>> v) {
       BitCast(du32, Mul(ConvertTo(df32, BitCast(di32, mantissa)),
                         Set(df32, 1.0f / 16384 / 1024)));
 
-  const VU32 biased_exp32 = Add(biased_exp, Set(du32, 127 - 15));
+  const VU32 biased_exp32 =
+      IfThenElse(Eq(biased_exp, Set(du32, 0x1F)), Set(du32, 0xFF),
+                 Add(biased_exp, Set(du32, 127 - 15)));
   const VU32 mantissa32 = ShiftLeft<23 - 10>(mantissa);
   const VU32 normal = Or(ShiftLeft<23>(biased_exp32), mantissa32);
   const VU32 bits32 = IfThenElse(Eq(biased_exp, Zero(du32)), subnormal, normal);
-- 
2.43.0


From 8dd4a0ccf2cd4ea954b4e3db18985b85e4abe367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 07/40] fix: CLMulLower/CLMulUpper generic: prevent digit
 overflow with 16 partial products

---
 hwy/ops/generic_ops-inl.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index c72b0cd..a9f5143 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4429,6 +4429,14 @@ HWY_API V CLMulLower(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
+  // Each sum of products of the (up to 16) bits in two operands must fit in a
+  // 4-bit digit, so only use 15 bits of `a` and multiply its topmost digit
+  // separately. Those products cannot carry because one factor is a single bit.
+  const auto a_top = And(a, Set(d, 0xF000000000000000ULL));
+  const auto p_top =
+      Xor(Xor(MulEven(And(a_top, k1), b), MulEven(And(a_top, k2), b)),
+          Xor(MulEven(And(a_top, k4), b), MulEven(And(a_top, k8), b)));
+  a = Xor(a, a_top);
   const auto a0 = And(a, k1);
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
@@ -4446,7 +4454,8 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  return Xor(p_top,
+             Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))));
 }
 
 template <class V>
@@ -4457,6 +4466,14 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
+  // Each sum of products of the (up to 16) bits in two operands must fit in a
+  // 4-bit digit, so only use 15 bits of `a` and multiply its topmost digit
+  // separately. Those products cannot carry because one factor is a single bit.
+  const auto a_top = And(a, Set(d, 0xF000000000000000ULL));
+  const auto p_top =
+      Xor(Xor(MulOdd(And(a_top, k1), b), MulOdd(And(a_top, k2), b)),
+          Xor(MulOdd(And(a_top, k4), b), MulOdd(And(a_top, k8), b)));
+  a = Xor(a, a_top);
   const auto a0 = And(a, k1);
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
@@ -4474,7 +4491,8 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  return Xor(p_top,
+             Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))));
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From bb4a2d706788c554d8f9d8cd058901f484a54889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 08/40] fix: generic 8-bit CompressBitsStore: ignore bits
 beyond the number of lanes

---
 hwy/ops/generic_ops-inl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index a9f5143..5d08566 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -6056,7 +6056,11 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    size_t bits8 = bits[i / 8];
+    // Ignore any unused bits, as in LoadMaskBits.
+    HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < 8) {
+      bits8 &= (size_t{1} << HWY_MIN(Lanes(d), size_t{8})) - 1;
+    }
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From 70bad5b16263a0c75e4eb4b945f169c8da29a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 09/40] fix: x86 masked loads/stores/compress of partial
 vectors: ignore mask bits beyond the vector

---
 hwy/ops/x86_128-inl.h  | 100 ++++++++++++++++++++++++++++++++++-------
 hwy/ops/x86_avx3-inl.h |   7 +--
 2 files changed, 87 insertions(+), 20 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 00a71b9..2f84925 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3248,105 +3248,151 @@ HWY_API VFromD<D> InterleaveLower(D /* tag */, VFromD<D> a, VFromD<D> b) {
 
 #if HWY_TARGET <= HWY_AVX3
 
+namespace detail {
+
+// For partial vectors, clears any mask bits beyond the lanes of the vector to
+// prevent faults and accesses to other memory.
+template <class D>
+HWY_INLINE MFromD<D> ClearUpperMaskBits(D d, MFromD<D> m) {
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    m = And(m, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+  return m;
+}
+
+}  // namespace detail
+
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi8(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{_mm_maskz_loadu_epi16(m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi32(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi64(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const float* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_maskz_loadu_ps(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const double* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_maskz_loadu_pd(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_mask_loadu_epi8(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{
                         _mm_mask_loadu_epi16(BitCast(du, v).raw, m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_mask_loadu_epi32(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_mask_loadu_epi64(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const float* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_mask_loadu_ps(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const double* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskBits(d, m);
   return VFromD<D>{_mm_mask_loadu_pd(v.raw, m.raw, p)};
 }
 
 #elif HWY_TARGET == HWY_AVX2
 
+namespace detail {
+
+// For partial vectors, zeroes the mask lanes beyond the vector to prevent
+// faults and accesses to other memory.
+template <class D>
+HWY_INLINE MFromD<D> ClearUpperMaskLanes(D d, MFromD<D> m) {
+  HWY_IF_CONSTEXPR(d.MaxBytes() < 16) {
+    const Full128<TFromD<D>> dfull;
+    const Mask128<TFromD<D>> mfull{m.raw};
+    m = MFromD<D>{And(mfull, FirstN(dfull, MaxLanes(d))).raw};
+  }
+  return m;
+}
+
+}  // namespace detail
+
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskLanes(d, m);
   auto p_p = reinterpret_cast<const int*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi32(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskLanes(d, m);
   auto p_p = reinterpret_cast<const long long*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi64(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const float* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskLanes(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_ps(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const double* HWY_RESTRICT p) {
+  m = detail::ClearUpperMaskLanes(d, m);
   const RebindToSigned<decltype(d)> di;
   return VFromD<D>{_mm_maskload_pd(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
@@ -3661,39 +3707,53 @@ HWY_API void ScalarMaskedStore(VFromD<D> v, MFromD<D> m, D d,
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   _mm_mask_storeu_epi8(p, m.raw, v.raw);
 }
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   _mm_mask_storeu_epi16(reinterpret_cast<uint16_t*>(p), RebindMask(du, m).raw,
                         BitCast(du, v).raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   auto pi = reinterpret_cast<int*>(p);  // NOLINT
   _mm_mask_storeu_epi32(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   auto pi = reinterpret_cast<long long*>(p);  // NOLINT
   _mm_mask_storeu_epi64(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, float* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          float* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   _mm_mask_storeu_ps(p, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, double* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          double* HWY_RESTRICT p) {
+  // For partial vectors, avoid writing other lanes by zeroing their mask.
+  m = detail::ClearUpperMaskBits(d, m);
   _mm_mask_storeu_pd(p, m.raw, v.raw);
 }
 
@@ -13443,6 +13503,9 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16),
 HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
                              const TFromD<D>* HWY_RESTRICT unaligned) {
 #if HWY_TARGET <= HWY_AVX3_DL  // VBMI2
+  // Native expand-load would access memory for any mask bits beyond the lanes
+  // of a partial vector.
+  mask = detail::ClearUpperMaskBits(d, mask);
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
@@ -13458,6 +13521,9 @@ template <class D, HWY_IF_V_SIZE_LE_D(D, 16),
 HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
                              const TFromD<D>* HWY_RESTRICT unaligned) {
 #if HWY_TARGET <= HWY_AVX3
+  // Native expand-load would access memory for any mask bits beyond the lanes
+  // of a partial vector.
+  mask = detail::ClearUpperMaskBits(d, mask);
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
diff --git a/hwy/ops/x86_avx3-inl.h b/hwy/ops/x86_avx3-inl.h
index 7d4a8fc..091d71e 100644
--- a/hwy/ops/x86_avx3-inl.h
+++ b/hwy/ops/x86_avx3-inl.h
@@ -413,6 +413,7 @@ HWY_API V CompressBits(V v, const uint8_t* HWY_RESTRICT bits) {
 template <class D, HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 1) | (1 << 2))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  mask = detail::ClearUpperMaskBits(d, mask);
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -435,6 +436,7 @@ template <class D, HWY_IF_NOT_FLOAT_D(D),
           HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 4) | (1 << 8))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  mask = detail::ClearUpperMaskBits(d, mask);
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -453,6 +455,7 @@ HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
 template <class D, HWY_IF_FLOAT3264_D(D)>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  mask = detail::ClearUpperMaskBits(d, mask);
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -471,9 +474,7 @@ HWY_API size_t CompressBlendedStore(VFromD<D> v, MFromD<D> m, D d,
   // Native CompressStore already does the blending at no extra cost (latency
   // 11, rthroughput 2 - same as compress plus store).
 
-  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
-    m = And(m, FirstN(d, HWY_MAX_LANES_D(D)));
-  }
+  m = detail::ClearUpperMaskBits(d, m);
 
   HWY_IF_CONSTEXPR(!HWY_X86_SLOW_COMPRESS_STORE &&
                    (HWY_TARGET <= HWY_AVX3_DL || sizeof(TFromD<D>) > 2)) {
-- 
2.43.0


From 36f0545cc8fc4f4d91f8d5734e8559eb05e7ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 10/40] fix: x86 gather for partial vectors: do not use indices
 beyond the vector

---
 hwy/ops/x86_128-inl.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2f84925..f82a142 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -6307,14 +6307,24 @@ HWY_INLINE Vec128<double, N> NativeMaskedGatherOr128(
 }  // namespace detail
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16)>
-HWY_API VFromD<D> GatherOffset(D /*d*/, const TFromD<D>* HWY_RESTRICT base,
+HWY_API VFromD<D> GatherOffset(D d, const TFromD<D>* HWY_RESTRICT base,
                                VFromD<RebindToSigned<D>> offsets) {
+  // For partial vectors, ignore the upper offsets to prevent faults.
+  if (!detail::IsFull(d)) {
+    return detail::NativeMaskedGatherOr128<1>(Zero(d), FirstN(d, Lanes(d)),
+                                              base, offsets);
+  }
   return detail::NativeGather128<1>(base, offsets);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), typename T = TFromD<D>>
-HWY_API VFromD<D> GatherIndex(D /*d*/, const T* HWY_RESTRICT base,
+HWY_API VFromD<D> GatherIndex(D d, const T* HWY_RESTRICT base,
                               VFromD<RebindToSigned<D>> indices) {
+  // For partial vectors, ignore the upper indices to prevent faults.
+  if (!detail::IsFull(d)) {
+    return detail::NativeMaskedGatherOr128<sizeof(T)>(
+        Zero(d), FirstN(d, Lanes(d)), base, indices);
+  }
   return detail::NativeGather128<sizeof(T)>(base, indices);
 }
 
-- 
2.43.0


From 80074cf3586664517a88ff082e96e71bb872a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 11/40] fix: SCALAR MaskedLoad[Or]: do not access memory if the
 mask is false

---
 hwy/ops/scalar-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 73be5d5..ebf28a6 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1087,13 +1087,15 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+  // Do not access memory if the mask is false.
+  return m.bits ? Load(d, aligned) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
                              const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+  // Do not access memory if the mask is false.
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From 81d7260801e42280028dd63ff5f5e01a441d52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 12/40] fix: SupportedTargets() re-enabled disabled targets for
 subsequent dynamic dispatch

---
 hwy/targets.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..96095e0 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -783,6 +783,12 @@ HWY_DLLEXPORT void SetSupportedTargetsForTest(int64_t targets) {
   GetChosenTarget().DeInit();  // see comment above
 }
 
+// Never returns 0 because there must always be one target to call.
+static int64_t ExcludeDisabledTargets(int64_t targets) {
+  targets &= supported_mask_;
+  return targets == 0 ? HWY_STATIC_TARGET : targets;
+}
+
 HWY_DLLEXPORT int64_t SupportedTargets() {
   int64_t targets = supported_targets_for_test_;
   if (HWY_LIKELY(targets == 0)) {
@@ -793,13 +799,15 @@ HWY_DLLEXPORT int64_t SupportedTargets() {
     targets = DetectTargets();
 
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. This must already exclude disabled targets:
+    // other threads may dispatch as soon as it is set, and only FunctionCache
+    // (not other callers of this function) calls Update() again afterwards.
+    targets = ExcludeDisabledTargets(targets);
     GetChosenTarget().Update(targets);
+    return targets;
   }
 
-  targets &= supported_mask_;
-  return targets == 0 ? HWY_STATIC_TARGET : targets;
+  return ExcludeDisabledTargets(targets);
 }
 
 HWY_DLLEXPORT ChosenTarget& GetChosenTarget() {
-- 
2.43.0


From 9f811393da74c495ea6321a5ed0a4fec982cc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 13/40] fix: BitSet4096: provide storage for sizes that are not
 multiples of 64

---
 hwy/bit_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/bit_set.h b/hwy/bit_set.h
index f8f921b..29282ea 100644
--- a/hwy/bit_set.h
+++ b/hwy/bit_set.h
@@ -150,7 +150,7 @@ class BitSet4096 {
  private:
   static_assert(kMaxSize <= 64 * 64, "One BitSet64 insufficient");
   BitSet64 nonzero_;
-  BitSet64 bits_[kMaxSize / 64];
+  BitSet64 bits_[(kMaxSize + 63) / 64];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 36972272ab5724ad8f9b7a027a38dc0178b6026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 14/40] fix: MakeUniqueAligned[WithAlloc] constructed the
 object at null if allocation fails

---
 hwy/aligned_allocator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..0a65730 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,6 +118,10 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
+  // Do not construct T if the allocation failed.
+  if (ptr == nullptr) {
+    return AlignedUniquePtr<T>(nullptr, AlignedDeleter(free, opaque));
+  }
   return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
                              AlignedDeleter(free, opaque));
 }
@@ -127,6 +131,8 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
+  // Do not construct T if the allocation failed.
+  if (ptr == nullptr) return AlignedUniquePtr<T>(nullptr, AlignedDeleter());
   return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
                              AlignedDeleter());
 }
-- 
2.43.0


From 2fa4a452310c960749b00e4d705db6911e5b198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 15/40] fix: AlignedAllocator::allocate returned a short block
 if the size overflows

---
 hwy/aligned_allocator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 0a65730..9c00b82 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -24,6 +24,7 @@
 #include <cstdint>
 #include <cstring>
 #include <initializer_list>
+#include <limits>
 #include <memory>
 #include <type_traits>
 #include <utility>
@@ -152,8 +153,12 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
+    const std::size_t items = static_cast<std::size_t>(n);
+    if (items > std::numeric_limits<std::size_t>::max() / sizeof(value_type)) {
+      return nullptr;  // overflowed
+    }
     return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+        AllocateAlignedBytes(items * sizeof(value_type)));
   }
 
   template <class V>
-- 
2.43.0


From 45560b37332d4f3572c812a6306a24644fd5e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 16/40] fix: Stats: int/int64_t overflow for large counts (>=
 2^31 samples)

---
 hwy/stats.cc | 14 +++++++++-----
 hwy/stats.h  | 15 ++++++++-------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/hwy/stats.cc b/hwy/stats.cc
index 4c53124..203890e 100644
--- a/hwy/stats.cc
+++ b/hwy/stats.cc
@@ -33,11 +33,15 @@ void Stats::Assimilate(const Stats& other) {
 
   sum_log_ += other.sum_log_;
 
-  const double product_n = n_ * other.n_;
-  const double n2 = n_ * n_;
-  const double other_n2 = other.n_ * other.n_;
-  const int64_t total_n2 = total_n * total_n;
-  const double total_n3 = static_cast<double>(total_n2) * total_n;
+  // double because the products may overflow int64_t.
+  const double n = static_cast<double>(n_);
+  const double other_n = static_cast<double>(other.n_);
+  const double product_n = n * other_n;
+  const double n2 = n * n;
+  const double other_n2 = other_n * other_n;
+  const double total_n2 =
+      static_cast<double>(total_n) * static_cast<double>(total_n);
+  const double total_n3 = total_n2 * static_cast<double>(total_n);
   // Precompute reciprocal for speed - used at least twice.
   const double inv_total_n = 1.0 / total_n;
   const double inv_total_n2 = 1.0 / total_n2;
diff --git a/hwy/stats.h b/hwy/stats.h
index a313e02..12a0920 100644
--- a/hwy/stats.h
+++ b/hwy/stats.h
@@ -86,9 +86,10 @@ class Stats {
     const double d = x - m1_;
     const double d_div_n = d / static_cast<double>(n_);
     const double d2n1_div_n = d * (static_cast<double>(n_) - 1) * d_div_n;
-    const int64_t n_poly = n_ * n_ - 3 * n_ + 3;
+    const double n = static_cast<double>(n_);
+    const double n_poly = n * n - 3.0 * n + 3.0;
     m1_ += d_div_n;
-    m4_ += d_div_n * (d_div_n * (d2n1_div_n * static_cast<double>(n_poly) + 6.0 * m2_) - 4.0 * m3_);
+    m4_ += d_div_n * (d_div_n * (d2n1_div_n * n_poly + 6.0 * m2_) - 4.0 * m3_);
     m3_ += d_div_n * (d2n1_div_n * (static_cast<double>(n_) - 2) - 3.0 * m2_);
     m2_ += d2n1_div_n;
   }
@@ -107,13 +108,13 @@ class Stats {
   double Mean() const { return m1_; }
   // Same as Mu2. Assumes n_ is large.
   double SampleVariance() const {
-    return n_ == 0 ? 0.0 : m2_ / static_cast<int>(n_);
+    return n_ == 0 ? 0.0 : m2_ / static_cast<double>(n_);
   }
   // Unbiased estimator for population variance even for smaller n_.
   double Variance() const {
     if (n_ == 0) return 0.0;
     if (n_ == 1) return m2_;
-    return m2_ / static_cast<int>(n_ - 1);
+    return m2_ / static_cast<double>(n_ - 1);
   }
   double StandardDeviation() const { return std::sqrt(Variance()); }
   // Near zero for normal distributions; if positive on a unimodal distribution,
@@ -146,9 +147,9 @@ class Stats {
   // Central moments, useful for "method of moments"-based parameter estimation
   // of a mixture of two Gaussians. Assumes Count() != 0.
   double Mu1() const { return m1_; }
-  double Mu2() const { return m2_ / static_cast<int>(n_); }
-  double Mu3() const { return m3_ / static_cast<int>(n_); }
-  double Mu4() const { return m4_ / static_cast<int>(n_); }
+  double Mu2() const { return m2_ / static_cast<double>(n_); }
+  double Mu3() const { return m3_ / static_cast<double>(n_); }
+  double Mu4() const { return m4_ / static_cast<double>(n_); }
 
   // Which statistics to EXCLUDE in ToString
   enum {
-- 
2.43.0


From 13d7cdcc28216f42788fc0dbb863fc94aec8b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 17/40] fix: Stats::ToString returned an uninitialized buffer
 if all are excluded

---
 hwy/stats.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/stats.cc b/hwy/stats.cc
index 203890e..aba2213 100644
--- a/hwy/stats.cc
+++ b/hwy/stats.cc
@@ -73,6 +73,7 @@ std::string Stats::ToString(int exclude) const {
   if (Count() == 0) return std::string("(none)");
 
   char buf[300];
+  buf[0] = '\0';  // in case all are excluded
   int pos = 0;
   int ret;  // snprintf - bytes written or negative for error.
 
-- 
2.43.0


From 132fa9b6e616e817f941ca5fde9cdbf9aff938a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 18/40] fix: robust_statistics: Median/Mode overflowed for
 large unsigned values

---
 hwy/robust_statistics.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..9fb06e8 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -97,8 +97,9 @@ T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
     return x;
   }
   HWY_ASSERT(half_count == 1);
-  const T average = (x + sorted[idx_begin + 1] + 1) / 2;
-  return average;
+  // Equivalent to (x + y + 1) / 2 without overflow.
+  const T d = sorted[idx_begin + 1] - x;
+  return static_cast<T>(x + (d - d / 2));
 }
 
 // Returns the mode. Side effect: sorts "values".
@@ -123,8 +124,10 @@ T Median(T* values, const size_t num_values) {
   if (num_values % 2) {
     return values[half];
   }
-  // Even count: return average of middle two.
-  return (values[half] + values[half - 1] + 1) / 2;
+  // Even count: return average of middle two, rounding up. Equivalent to
+  // (x + y + 1) / 2 without overflow.
+  const T d = values[half] - values[half - 1];
+  return static_cast<T>(values[half - 1] + (d - d / 2));
 }
 
 // Returns a robust measure of variability.
-- 
2.43.0


From 27e96d6c608f3d437b8e123a7225f8f73fed5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 19/40] fix: ToString(double) truncated values >= 1E99 to the
 first 99 digits

---
 hwy/print.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/print.cc b/hwy/print.cc
index b2c68b1..f9718b3 100644
--- a/hwy/print.cc
+++ b/hwy/print.cc
@@ -82,7 +82,9 @@ HWY_DLLEXPORT void ToString(const TypeInfo& info, const void* ptr,
     if (info.is_float) {
       double value;
       CopyBytes<8>(ptr, &value);
-      const char* fmt = hwy::ScalarAbs(value) < 1E-9 ? "%.18E" : "%.18f";
+      const double abs = hwy::ScalarAbs(value);
+      // Also avoid %f for large values: their digits would be truncated.
+      const char* fmt = (abs < 1E-9 || abs >= 1E60) ? "%.18E" : "%.18f";
       snprintf(string100, 100, fmt, value);  // NOLINT
     } else {
       const uint8_t* ptr8 = reinterpret_cast<const uint8_t*>(ptr);
-- 
2.43.0


From c4009761928bdcdffd24e0b39c94f608b8c38f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 20/40] fix: HeapSort/HeapPartialSort: handle empty arrays and
 k == num

---
 hwy/contrib/sort/vqsort-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..26ab43d 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -232,7 +232,10 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  HWY_DASSERT(k_lanes <= num_lanes);
+  // HeapSelect requires k_lanes to be a valid index; there is nothing to select
+  // if all lanes are to be sorted.
+  if (k_lanes != num_lanes) HeapSelect(st, lanes, num_lanes, k_lanes);
   HeapSort(st, lanes, k_lanes);
 }
 
-- 
2.43.0


From 176c1c7167ad6dd40c62e0afd852a4cbfe28d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 21/40] fix: PartialSort/Select lost keys if the input contains
 NaN

---
 hwy/contrib/sort/vqsort-inl.h | 46 ++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 26ab43d..496c741 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1953,6 +1953,36 @@ HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+// For algorithms that do not sort the entire array, where the sentinels from
+// `CountAndReplaceNaN` would not necessarily end up at its back. Moves any NaN
+// there, replaces them with the canonical NaN and returns the number of NaN.
+template <class D, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D d, T* HWY_RESTRICT keys, size_t num) {
+  const size_t N = Lanes(d);
+  bool any_nan = false;
+  size_t i = 0;
+  if (num >= N) {
+    for (; i <= num - N; i += N) {
+      any_nan |= !AllFalse(d, IsNaN(LoadU(d, keys + i)));
+    }
+  }
+  any_nan |= !AllFalse(d, IsNaN(LoadN(d, keys + i, num - i)));
+  if (HWY_LIKELY(!any_nan)) return 0;
+
+  size_t num_valid = 0;
+  for (i = 0; i < num; ++i) {
+    const T key = keys[i];
+    if (!ScalarIsNaN(key)) keys[num_valid++] = key;
+  }
+  Fill(d, GetLane(NaN(d)), num - num_valid, keys + num_valid);
+  return num - num_valid;
+}
+
+template <class D, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D, T* HWY_RESTRICT, size_t) {
+  return 0;
+}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2015,7 +2045,8 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  num -= detail::MoveNaNToBack(d, keys, num);
+  k = HWY_MIN(k, num);
 
 #if VQSORT_ENABLED || HWY_IDE
   if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
@@ -2037,14 +2068,10 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
   }
   detail::HeapPartialSort(st, keys, num, k);
 #endif  // VQSORT_ENABLED
-
-  if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
-  }
 }
 
 template <class D, class Traits, typename T>
-void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
+void Select(D d, Traits st, T* HWY_RESTRICT keys, size_t num,
             const size_t k, T* HWY_RESTRICT buf) {
   if (VQSORT_PRINT >= 1) {
     fprintf(stderr, "=============== Select %s num=%zu, k=%zu vec bytes=%zu\n",
@@ -2059,7 +2086,8 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  num -= detail::MoveNaNToBack(d, keys, num);
+  if (HWY_UNLIKELY(k >= num)) return;  // selected a NaN
 
 #if VQSORT_ENABLED || HWY_IDE
   if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
@@ -2078,10 +2106,6 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   }
   detail::HeapSelect(st, keys, num, k);
 #endif  // VQSORT_ENABLED
-
-  if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
-  }
 }
 
 // Sorts `keys[0..num-1]` according to the order defined by `st.Compare`.
-- 
2.43.0


From 252bed94e048d90336f2a307918d19f390b504f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 22/40] fix: Foreach: take out of bound lanes from the
 corresponding lane of no

---
 hwy/contrib/algo/transform-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/algo/transform-inl.h b/hwy/contrib/algo/transform-inl.h
index f48476d..44a2016 100644
--- a/hwy/contrib/algo/transform-inl.h
+++ b/hwy/contrib/algo/transform-inl.h
@@ -92,7 +92,9 @@ void Foreach(D d, const T* HWY_RESTRICT in, const size_t count, const Vec<D> no,
 
   const size_t remaining = count - idx;
   HWY_DASSERT(0 != remaining && remaining < N);
-  const Vec<D> v = LoadNOr(no, d, in + idx, remaining);
+  // Not LoadNOr, which may require all lanes of `no` to be equal.
+  const Vec<D> v =
+      IfThenElse(FirstN(d, remaining), LoadN(d, in + idx, remaining), no);
   func(d, v);
 }
 
-- 
2.43.0


From c3b7762844ebe679ab7e280e79487f234ae98479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 23/40] fix: MatVecAdd: do not round float64 results to float32
 when adding

---
 hwy/contrib/matvec/matvec-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/matvec/matvec-inl.h b/hwy/contrib/matvec/matvec-inl.h
index a858c9f..96ee109 100644
--- a/hwy/contrib/matvec/matvec-inl.h
+++ b/hwy/contrib/matvec/matvec-inl.h
@@ -34,8 +34,8 @@ namespace HWY_NAMESPACE {
 
 template <typename TA, typename TB>
 TA AddScalar(TA a, TB b) {
-  return ConvertScalarTo<TA>(ConvertScalarTo<float>(a) +
-                             ConvertScalarTo<float>(b));
+  using TF = If<sizeof(TA) == 8, double, float>;
+  return ConvertScalarTo<TA>(ConvertScalarTo<TF>(a) + ConvertScalarTo<TF>(b));
 }
 
 template <size_t kOuter, size_t kInner, typename T, bool kAdd>
-- 
2.43.0


From 744214c974948cd249c7ade019aaf3aa872cc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 24/40] fix: Atan2: +/-0 with x=-0 is +/-Pi

---
 hwy/contrib/math/math-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index d741684..e2e1c74 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -144,7 +144,8 @@ HWY_INLINE V Atan2(const D d, V y, V x) {
   const V k0 = Zero(d);
   const M y_0 = Eq(y, k0);
   const M x_0 = Eq(x, k0);
-  const M x_neg = Lt(x, k0);
+  // Includes -0, for which the result is +/-Pi if y is also zero.
+  const M x_neg = IsNegative(x);
   const M y_inf = IsInf(y);
   const M x_inf = IsInf(x);
   const M nan = Or(IsNaN(y), IsNaN(x));
-- 
2.43.0


From 2952e61320e47937307b0d0e2f4795c56470ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 25/40] fix: VectorXoshiro: batches wrote beyond the end if not
 a multiple of the vector length

---
 hwy/contrib/random/random-inl.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..0519d55 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreBatch(next, tag, result.data() + i, n - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +228,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreBatch(next, tag, result.data() + i, N - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +269,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreBatch(uniform, real_tag, result.data() + i, n - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +296,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreBatch(uniform, real_tag, result.data() + i, N - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -312,6 +312,18 @@ class VectorXoshiro {
   StateType state_;
   const std::uint64_t streams;
 
+  // Stores at most `remaining` lanes: the number of outputs is not necessarily
+  // a multiple of the vector length.
+  template <class D, class V = Vec<D>>
+  HWY_INLINE static void StoreBatch(V v, D d, TFromD<D> *HWY_RESTRICT to,
+                                    const std::uint64_t remaining) noexcept {
+    if (HWY_LIKELY(remaining >= Lanes(d))) {
+      Store(v, d, to);
+    } else {
+      StoreN(v, d, to, static_cast<size_t>(remaining));
+    }
+  }
+
   HWY_INLINE static VU64 Update(VU64 &s0, VU64 &s1, VU64 &s2,
                                 VU64 &s3) noexcept {
     const auto result = Add(RotateRight<41>(Add(s0, s3)), s0);
-- 
2.43.0


From 2074078a7cfdb48840f3d5778ae9b8a36a7fbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 26/40] fix: Pack16<11>, Pack16<13>: upper bits of lanes were
 mixed up

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 34 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..2947db7 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Mask the MSB and shift it into the top 3-of-11.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 rawF = Or(downF, Xor3(ShiftRight<7>(And(packed8, msb)),
+                                     ShiftRight<6>(And(packed9, msb)),
+                                     ShiftRight<5>(And(packedA, msb))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
@@ -2120,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2184,21 +2185,22 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Mask the MSB and shift it into the top 5-of-13.
+    const VU16 msb = Set(d, 0x8000u);
+    const VU16 p0 = Xor3(ShiftRight<7>(And(packed8, msb)),  //
+                         ShiftRight<6>(And(packed9, msb)),
+                         ShiftRight<5>(And(packedA, msb)));
+    const VU16 p1 = Xor3(ShiftRight<4>(And(packedB, msb)),
+                         ShiftRight<3>(And(packedC, msb)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From d78f62e7f5221d49688a772c2def685621d825f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 27/40] fix: make Image3 row accessors compile

VoidPlaneRow returned a pointer to const from a function returning void*,
hence instantiating ConstPlaneRow or MutablePlaneRow was an error.
---
 hwy/contrib/image/image.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..5a2ee4c 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -293,9 +293,8 @@ class Image3 {
     // Use the first plane's stride because the compiler might not realize they
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
-    const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    void* row = const_cast<uint8_t*>(planes_[c].bytes()) + row_offset;
+    return HWY_ASSUME_ALIGNED(row, 64);
   }
 
  private:
-- 
2.43.0


From 66f7f9409bb3feb62ea917e308dfdc6922d18522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 28/40] fix: AlignedFreer::DoNothing reads before
 externally-owned memory

FreeAlignedBytes loads the allocation header, which only exists for memory
from AllocateAlignedBytes. Images wrapping caller memory thus read out of
bounds upon destruction, and failed the alignment check in debug builds.
---
 hwy/aligned_allocator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 9c00b82..b52b5a9 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -243,6 +243,9 @@ class AlignedFreer {
 
   template <typename T>
   void operator()(T* aligned_pointer) const {
+    // Externally-owned memory is not preceded by our allocation header, and
+    // may be less aligned.
+    if (free_ == &DoNothing) return;
     FreeAlignedBytes(aligned_pointer, free_, opaque_ptr_);
   }
 
-- 
2.43.0


From 19566eb7e18b40f715ca0d11a69604d8cdc4bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 29/40] fix: ThreadPool: wraparound of task indices at the end
 of the u64 range

Work stealing increments a worker's counter past the end of its range. If
that is within a few tasks of the maximum uint64_t, the counter wrapped around
to zero, and subsequent thieves called the closure with tasks that are not in
the range. Store ranges relative to begin instead.
---
 hwy/contrib/thread_pool/thread_pool.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..2c59cdf 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -453,8 +453,10 @@ class alignas(8) Tasks {
     opaque_.store(reinterpret_cast<const void*>(&closure), kRel);
   }
 
-  // Assigns workers their share of `[begin, end)`. Called from the main
-  // thread; workers are initializing or spinning for a command.
+  // Assigns workers their share of `[begin, end)`, relative to `begin` so that
+  // incrementing past the end of a range (see `WorkerReserveTask`) cannot wrap
+  // around. Called from the main thread; workers are initializing or spinning
+  // for a command.
   static void DivideRangeAmongWorkers(const uint64_t begin, const uint64_t end,
                                       const Divisor64& div_workers,
                                       Worker* workers) {
@@ -470,13 +472,13 @@ class alignas(8) Tasks {
     const size_t remainder =
         static_cast<size_t>(div_workers.Remainder(num_tasks));
 
-    uint64_t my_begin = begin;
+    uint64_t my_begin = 0;
     for (size_t worker = 0; worker < num_workers; ++worker) {
       const uint64_t my_end = my_begin + min_tasks + (worker < remainder);
       workers[worker].SetRange(my_begin, my_end);
       my_begin = my_end;
     }
-    HWY_DASSERT(my_begin == end);
+    HWY_DASSERT(my_begin == num_tasks);
   }
 
   // Runs the worker's assigned range of tasks, plus work stealing if needed.
@@ -497,7 +499,7 @@ class alignas(8) Tasks {
 
     const uint64_t task = begin + worker;
     // We might still have more workers than tasks, so check first.
-    if (HWY_LIKELY(task < end)) {
+    if (HWY_LIKELY(worker < end - begin)) {
       const void* opaque = Opaque();
       const RunFunc func = Func();
       func(opaque, task, worker);
@@ -521,6 +523,7 @@ class alignas(8) Tasks {
     const size_t index = worker->Index();
     const RunFunc func = Func();
     const void* opaque = Opaque();
+    const uint64_t begin = begin_.load(kAcq);
 
     // For each worker in random order, starting with our own, attempt to do
     // all their work.
@@ -540,7 +543,7 @@ class alignas(8) Tasks {
         }
         // Pass the index we are actually running on; this is important
         // because it is the TLS index for user code.
-        func(opaque, task, index);
+        func(opaque, begin + task, index);
       }
     }
   }
-- 
2.43.0


From cba326c804a6c9c64be38fa24b3daab79c54b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 30/40] fix: ThreadPool: stale BarrierCounter values could pass
 for the next epoch

With more than 60 threads, the counters share storage with the epochs of the
last threads. When switching from a counter to another barrier type, a count
equal to the new epoch caused the main thread to continue too early, which led
to deadlock or repeated tasks.
---
 hwy/contrib/thread_pool/thread_pool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 2c59cdf..1f6b4b8 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -1234,6 +1234,12 @@ class alignas(HWY_ALIGNMENT) ThreadPool {
 
     // No-op task; will not be called because begin == end.
     tasks_.Set(0, 0, [](uint64_t /*task*/, size_t /*worker*/) {});
+    // `BarrierCounter` stores counts in the last workers, which are also threads
+    // if there are many. Ensure these are not mistaken for the next epoch. This
+    // is safe because all threads have already reached the old barrier.
+    for (size_t thread = 0; thread < num_threads_; ++thread) {
+      workers_[thread].StoreBarrier(0);
+    }
     // Threads are waiting using the old config, but will switch after waking,
     // which means we must already use the new barrier.
     pool::Config new_barrier = config_;
-- 
2.43.0


From 7889dd59d93ebfad67ab69ee04de2d789e439917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 31/40] fix: Topology: abort if a sysfs ID has ten or more
 digits

---
 hwy/contrib/thread_pool/topology.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..42ef21c 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -437,8 +437,9 @@ size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
 // is found, or at end. Returns false if no digits found.
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
-  // 9 digits cannot overflow even 32-bit size_t.
-  const size_t stop = pos + 9;
+  // 9 or 19 digits cannot overflow 32 or 64-bit size_t, respectively. The
+  // former is not enough for all u32 IDs, hence the distinction.
+  const size_t stop = pos + (sizeof(size_t) == 8 ? 19 : 9);
   *out = 0;
   for (; pos < HWY_MIN(end, stop); ++pos) {
     const int c = str[pos];
-- 
2.43.0


From 213abf2b62a8cf4d9d8609db80fa9d8a9e83b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 32/40] fix: Topology: sysfs lists of 200 or more bytes
 overflowed the buffer

---
 hwy/contrib/thread_pool/topology.cc | 39 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 42ef21c..3c52a9a 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -366,6 +366,10 @@ struct PackageSizes {
 
 #if HWY_OS_LINUX
 
+// Sysfs attributes are at most one page, but lists of LP that are not contiguous
+// can exceed a few hundred bytes.
+constexpr size_t kSysfsBufSize = 4096 + 1;  // including terminator
+
 class File {
  public:
   explicit File(const char* path) {
@@ -395,15 +399,16 @@ class File {
     }
   }
 
-  // Returns number of bytes read or 0 on failure.
-  size_t Read(char* buf200) const {
+  // Returns number of bytes read (including the added terminator) or 0 on
+  // failure. `buf` must have space for `kSysfsBufSize`.
+  size_t Read(char* buf) const {
     if (fd_ < 0) return 0;
     size_t pos = 0;
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
+      const auto bytes_read = read(fd_, buf + pos, kSysfsBufSize - 1 - pos);
       if (bytes_read == 0) {  // EOF: done
-        buf200[pos++] = '\0';
+        buf[pos++] = '\0';
         return pos;
       }
       if (bytes_read == -1) {
@@ -414,7 +419,7 @@ class File {
         return 0;
       }
       pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      HWY_ASSERT(pos < kSysfsBufSize);
     }
   }
 
@@ -423,14 +428,14 @@ class File {
 };
 
 // Returns bytes read, or 0 on failure.
-size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
+size_t ReadSysfs(const char* format, size_t lp, char* buf) {
   char path[200];
   const int bytes_written = snprintf(path, sizeof(path), format, lp);
   HWY_ASSERT(0 < bytes_written &&
              bytes_written < static_cast<int>(sizeof(path) - 1));
 
   const File file(path);
-  return file.Read(buf200);
+  return file.Read(buf);
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
@@ -473,10 +478,10 @@ bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
 }
 
 bool ReadNumberWithOptionalSuffix(const char* format, size_t lp, size_t* out) {
-  char buf200[200];
-  const size_t pos = ReadSysfs(format, lp, buf200);
+  char buf[kSysfsBufSize];
+  const size_t pos = ReadSysfs(format, lp, buf);
   if (pos == 0) return false;
-  return ParseNumberWithOptionalSuffix(buf200, pos, out);
+  return ParseNumberWithOptionalSuffix(buf, pos, out);
 }
 
 const char* kPackage =
@@ -635,11 +640,11 @@ void SetNodes(std::vector<Topology::LP>& lps) {
   // For each NUMA node found via sysfs:
   for (size_t node = 0;; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
-    char buf200[200];
-    const size_t bytes_read = ReadSysfs(kNode, node, buf200);
+    char buf[kSysfsBufSize];
+    const size_t bytes_read = ReadSysfs(kNode, node, buf);
     if (bytes_read == 0) break;
     const std::vector<size_t> list =
-        ExpandList(buf200, bytes_read, lps.size() - 1);
+        ExpandList(buf, bytes_read, lps.size() - 1);
     for (size_t lp : list) {
       lps[lp].node = static_cast<uint8_t>(node);
     }
@@ -898,13 +903,13 @@ using Caches = std::array<Cache, 4>;
 std::string ReadString(const char* name, size_t index) {
   // First CPU is usually a P core.
   const std::string path("/sys/devices/system/cpu/cpu0/cache/index%zu/");
-  char buf200[200];
-  size_t end = ReadSysfs((path + name).c_str(), index, buf200);
+  char buf[kSysfsBufSize];
+  size_t end = ReadSysfs((path + name).c_str(), index, buf);
   // Remove trailing newline/null to simplify string comparison.
   for (; end != 0; --end) {
-    if (buf200[end - 1] != '\0' && buf200[end - 1] != '\n') break;
+    if (buf[end - 1] != '\0' && buf[end - 1] != '\n') break;
   }
-  return std::string(buf200, buf200 + end);
+  return std::string(buf, buf + end);
 }
 
 template <typename T>
-- 
2.43.0


From efe7c872f6e2a06dde44a44e702aca978c83ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 33/40] fix: Topology: abort if a NUMA node has no processors

---
 hwy/contrib/thread_pool/topology.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 3c52a9a..e312959 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -602,6 +602,9 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
     return lp;
   };
 
+  // Memory-only NUMA nodes have an empty list.
+  if (list_end == 0 || list[0] == '\0' || list[0] == '\n') return expanded;
+
   // Parse all [first-]last separated by commas.
   for (;;) {
     // Single number or first of range: ends with dash, comma, or end.
-- 
2.43.0


From 86c170039b663526689fe9e69f71d138c019531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 34/40] fix: Topology: abort if a list mentions more than
 TotalLogicalProcessors

---
 hwy/contrib/thread_pool/topology.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e312959..ece8e8a 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -588,16 +588,10 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
 
   // Reads LP number and advances `pos`. `end` is for verifying we did not
   // read past a known terminator, or the end of string.
-  const auto parse_lp = [list, list_end, &pos, max_lp](size_t end) -> size_t {
+  const auto parse_lp = [list, list_end, &pos](size_t end) -> size_t {
     end = HWY_MIN(end, list_end);
     size_t lp;
     HWY_ASSERT(ParseDigits(list, end, pos, &lp));
-    HWY_IF_CONSTEXPR(HWY_ARCH_RISCV) {
-      // On RISC-V, both TotalLogicalProcessors and GetThreadAffinity may
-      // under-report the count, hence clamp.
-      lp = HWY_MIN(lp, max_lp);
-    }
-    HWY_ASSERT(lp <= max_lp);
     HWY_ASSERT(pos <= end);
     return lp;
   };
@@ -615,11 +609,13 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
       // Last of range ends with comma or end.
       const size_t lp_range_last = parse_lp(find(','));
 
-      expanded.reserve(expanded.size() + lp_range_last - lp_range_first + 1);
-      for (size_t lp = lp_range_first; lp <= lp_range_last; ++lp) {
+      // Skip any LP above `max_lp`: `TotalLogicalProcessors` is clamped, and may
+      // under-report the count.
+      for (size_t lp = lp_range_first; lp <= HWY_MIN(lp_range_last, max_lp);
+           ++lp) {
         expanded.push_back(lp);
       }
-    } else {  // single number
+    } else if (lp_range_first <= max_lp) {  // single number
       expanded.push_back(lp_range_first);
     }
 
-- 
2.43.0


From ee20a19aa64011fdbfb98e97d403f5eb72ca2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 35/40] fix: GetThreadAffinity: did not clear bits already set
 in the output

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index ece8e8a..2406e07 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From da2683690090d00d82f10d1c9c57e9f5042ce0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 36/40] fix: DataCaches: abort due to rounding of per-core size

---
 hwy/contrib/thread_pool/topology.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 2406e07..863ea3a 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -1195,8 +1195,11 @@ HWY_MAYBE_UNUSED void ComputeSets(Cache& c) {
   if (c.sets == 0) {
     c.sets = static_cast<uint32_t>(sets);
   } else {
+    // Rounding `size_kib` down loses less than 1 KiB, hence this many sets.
+    const size_t max_diff =
+        1024 / (static_cast<size_t>(c.bytes_per_line) * c.associativity) + 1;
     const size_t diff = c.sets - sets;
-    if (diff > 1) {
+    if (diff > max_diff) {
       HWY_ABORT("Inconsistent cache sets %u != %zu\n", c.sets, sets);
     }
   }
-- 
2.43.0


From 0c1321e71d8d9ecabceacf54995636fc4f8fc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 37/40] fix: profiler: do not list a merged duplicate zone
 again

MergeDuplicates left the duplicate in the list when it was the last zone, so
its calls and duration were printed twice.
---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 29f697d..701a759 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -355,9 +355,8 @@ class Results {
         if (!strcmp(name, string_origin + zones_[j].BiasedOffset())) {
           num_calls += zones_[j].NumCalls();
           zones_[i].Add(0, zones_[j].Duration());
-          // j was the last zone, so we are done.
-          if (j == num_zones_ - 1) break;
-          // Replace current zone with the last one, and check it next.
+          // Replace current zone with the last one, and check it next. If j was
+          // the last zone, this only removes it and we are done.
           zones_[j] = zones_[--num_zones_];
         } else {  // Name differed, try next Accumulator.
           ++j;
-- 
2.43.0


From 4816f9b666623c1478dc661f32c5297faa7f3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 38/40] fix: profiler: printing results without any zone must
 not crash

PrintResults dereferenced the first thread's pointer before checking whether
any thread had entered a zone.
---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 701a759..1053456 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -496,6 +496,7 @@ class ThreadList {
   void PrintResults() {
     const auto acq = std::memory_order_acquire;
     const size_t num_threads = num_threads_.load(acq);
+    if (num_threads == 0) return;  // no zone was ever entered
 
     ThreadSpecific* main = threads_[0].load(acq);
     main->AnalyzeRemainingPackets();
@@ -506,9 +507,7 @@ class ThreadList {
       main->GetResults().Assimilate(ts->GetResults());
     }
 
-    if (num_threads != 0) {
-      main->GetResults().Print();
-    }
+    main->GetResults().Print();
   }
 
  private:
-- 
2.43.0


From 18766395c328291d39a489c1e34e955a89e96ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:41 +0000
Subject: [PATCH 39/40] fix: PerfCounters::Init must return false if no counter
 is available

The header documents that it returns false if counters are unavailable, but it
returned true when none of them could be opened.
---
 hwy/perf_counters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 472d19b..4884d21 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -290,7 +290,7 @@ class PMU {
       return true;
     } else {
       HWY_WARN("No valid counters found.");
-      return true;
+      return false;
     }
   }
 
-- 
2.43.0


From 7eeb08e2cc6fd7f7b6ad9fbbbd1c25222c232bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:24 +0000
Subject: [PATCH 40/40] fix: Span of a container must refer to it, not to a
 temporary copy

Span(U) took the container by value, so constructing a Span from an owning
container such as std::vector pointed into the already freed copy.
---
 hwy/aligned_allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index b52b5a9..cc9a939 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -285,8 +285,9 @@ class Span {
  public:
   Span() = default;
   Span(T* data, size_t size) : size_(size), data_(data) {}
+  // By reference: a copy of an owning container would be freed before use.
   template <typename U>
-  Span(U u) : Span(u.data(), u.size()) {}
+  Span(U&& u) : Span(u.data(), u.size()) {}
   Span(std::initializer_list<const T> v) : Span(v.begin(), v.size()) {}
 
   // Copies the contents of the initializer list to the span.
-- 
2.43.0

