From 2fe990f3b84af89a8e67877de94592c4e7af7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 01/11] fix: classify NaNs other than the default NaN as NaN

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..2edde81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From 11520d1f95fee686a07c982a46210f604affc202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 02/11] fix: let mul_pow2 return the finite product of
 subnormals and 2^n for large n

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2edde81..68bd17d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1145,7 +1145,12 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        // A subnormal gains `FRACTION_BITS - msb` digits by normalization.
+        let max_exp_bits = match exp_bits {
+            0 => EXP_MAX + FRACTION_BITS - abs_bits.msb() - 1,
+            _ => EXP_MAX,
+        };
+        if exp_bits.saturating_add(n) >= max_exp_bits {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
-- 
2.43.0


From d3f546fab0af21273c74ea51ae2c92eda2b6308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 03/11] fix: let div_pow2 return a subnormal result if the
 exponent equals n

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 68bd17d..a5940e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1227,7 +1227,7 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if n > 0 && exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-- 
2.43.0


From a8d40bf69daa25021760fb02e51e6140da854a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 04/11] fix: let div_pow2 round quotients greater than half the
 least subnormal

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5940e1..8b89fb6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1231,7 +1231,7 @@ impl f256 {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            if shr > SIGNIFICAND_BITS {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
             let signif = signif(&abs_bits).rounding_div_pow2(shr);
-- 
2.43.0


From 76f4d5f3ffdb12cd3047d30009718a37e8a337c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 05/11] fix: let round_tie_even round values slightly greater
 than 1/2 up

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b89fb6..4f18704 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1098,7 +1098,7 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
             return Self::ZERO;
         }
-- 
2.43.0


From 233efa463cdc83368f1495706392413d0e866507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 06/11] fix: keep the low bits of a product when its subnormal
 result is rounded

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From e6f5eccceafb77ef26ee0bd87fcdf7999df5461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:29 +0000
Subject: [PATCH 07/11] fix: let fma handle subnormal operands, subnormal
 results and the larger operand correctly

---
 src/fused_ops/fma.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..30fdb33 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -269,10 +269,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // Extract biased exponents and significands.
     let exp_bits_x = exp_bits(&abs_bits_x) as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
+    let (signif_x, norm_shift_x) = norm_signif(&abs_bits_x);
     let exp_bits_y = exp_bits(&abs_bits_y) as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
+    let (signif_y, norm_shift_y) = norm_signif(&abs_bits_y);
     let exp_bits_a = exp_bits(&abs_bits_a) as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
     let signif_a = signif(&abs_bits_a);
@@ -292,8 +292,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // E(p) = e(x) + e(y) - Eₘᵢₙ
     //      = E(x) - n(x) + Eₘᵢₙ + E(y) - n(y) + Eₘᵢₙ - Eₘᵢₙ
     //      = E(x) - n(x)) + E(y) - n(y) + Eₘᵢₙ
-    let exp_bits_p =
-        (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y) + EMIN;
+    // less the shifts that normalized the significands of subnormals.
+    let exp_bits_p = (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y)
+        - (norm_shift_x + norm_shift_y) as i32
+        + EMIN;
     // Align the addend based on the difference of the exponents of the addend
     // and the product. Swap the operands, so that the larger one is the
     // first. The sign of the result is the sign of the larger operand.
@@ -323,9 +325,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             (&mut signif_p, &signif_a_shifted, sign_bits_hi_p)
         }
-        0..=1 => {
+        0..=ADDEND_ANCHORED_UPPER_LIMIT => {
             // Because of the uncertainty on the leading digit of the product
-            // we have to check explicitly for max(p, a).
+            // and of a subnormal addend we have to check explicitly for
+            // max(p, a).
             let shr = (REL_OFFSET as i32 - d) as u32;
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             if signif_p >= signif_a_shifted {
@@ -334,11 +337,6 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
                 (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
             }
         }
-        2..=ADDEND_ANCHORED_UPPER_LIMIT => {
-            let shr = (REL_OFFSET as i32 - d) as u32;
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
-        }
         _ => {
             // Product too small.
             signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
@@ -370,10 +368,11 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         if t >= 1 {
             (t - 1, n)
         } else {
-            (0, REL_OFFSET)
+            // The result is subnormal, its radix point has a fixed position.
+            (0, (REL_OFFSET as i32 + exp_bits_p) as u32)
         }
     } else {
-        (exp_bits_a - 1, 0)
+        (exp_bits_a - norm_bit_a, 0)
     };
     *signif_z <<= shl;
     // Now we have the results preliminary significand in signif_z.hi, before
-- 
2.43.0


From ac4bbf995b0c91bb38073bccd21b22e512d83775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 08/11] fix: sum_of_squares lost sticky bits and ignored
 subnormal operands

The bits shifted out when normalizing the sum (and the square of a subnormal
operand) were neglected, so that sums next to a tie were rounded down.
---
 src/fused_ops/sos.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..91c3010 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,16 +40,18 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is INF.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is normal and the other one is subnormal. The square of
+        // the latter may not be neglected, because it may break a tie.
     }
 
     // Both operands are finite and non-zero.
@@ -109,7 +111,9 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    let (t, rem) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z = t;
+    signif_z.lo.lo.0 |= (!rem.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From bfb48327fc919b431f5048067456a3b0995be7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:35 +0000
Subject: [PATCH 09/11] fix: let the division of wide integers round the
 correction of its estimate up only if inexact

x % y was y instead of 0, or panicked, for some subnormal y
---
 src/big_uint/uint_generic/binops/divrem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..986960a 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -123,8 +123,8 @@ where
             match (&t).cmp(&self) {
                 Ordering::Greater => {
                     let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
+                    let (mut n, r) = d.div_rem(*rhs);
+                    n.incr_if(!r.is_zero());
                     debug_assert!(n.hi.is_zero());
                     quot -= &n;
                     d = *rhs;
-- 
2.43.0


From d683519eeaf07f94e2a7983e6a1342e6339f5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 10/11] fix: let atan2 return multiples of pi/2 if exactly one
 operand is infinite

---
 src/math/circular_fns/atan.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..89d5687 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -108,6 +108,19 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_x != abs_bits_sticky_y {
+                // Exactly one operand is infinite, the other one is finite.
+                // self = ±∞ => ±½π
+                // other = +∞ => ±0
+                // other = -∞ => ±π
+                let mut res = if abs_bits_sticky_y > abs_bits_sticky_x {
+                    FRAC_PI_2
+                } else {
+                    [f256::ZERO, PI][other.sign() as usize]
+                };
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
-- 
2.43.0


From a51387d9867652ffd28f9a62cba0a20885af535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 11/11] fix: let atan2 return odd multiples of pi/4 for
 operands of equal magnitude

---
 src/math/circular_fns/atan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 89d5687..d3c0cce 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -144,7 +144,7 @@ impl f256 {
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0

