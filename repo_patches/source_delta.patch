From 401375e7f8ba4b59f33eb8aa82730c0f5ca84b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 01/19] fix: trunc of values of magnitude 2^32 and above, and
 of NaN

---
 src/float/trunc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..989b937 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,11 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // too large to have a fraction, infinite or NaN: also, don't overshift below
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From 78bef5269b94378be5cac93dc828bf9f30ba6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 02/19] fix: fract of values of magnitude 2^32 and above, and
 of NaN

---
 src/float/fract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..ea35366 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,15 @@ impl F32 {
             return self;
         }
 
+        // too large to have a fraction (don't overshift below)
+        if exponent >= MANTISSA_BITS as i32 {
+            return if self.is_nan() {
+                self
+            } else {
+                Self(0.0).copysign(self)
+            };
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
-- 
2.43.0


From 18f0db4b951739a7a69640fbda2c14923a54220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 03/19] fix: floor and ceil of values outside the i32 range,
 infinities and NaN

---
 src/float/floor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..c68c2b9 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -1,10 +1,15 @@
 //! Floating point floor approximation for a single-precision float.
 
-use super::F32;
+use super::{F32, MANTISSA_BITS};
 
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
+        // too large to have a fraction or fit the i32 below, infinite or NaN
+        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let mut res = (self.0 as i32) as f32;
 
         if self.0 < res {
-- 
2.43.0


From 001c387452cc7f22e726ab06a13f121728b2f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 04/19] fix: round of 0.49999997, of values above 2^23,
 infinities and NaN

---
 src/float/round.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..1fe348c 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,14 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        // adding 0.5 first would itself round, and an i32 doesn't hold every value
+        let whole = self.trunc();
+
+        if (self - whole).abs() >= 0.5 {
+            whole + Self(1.0).copysign(self)
+        } else {
+            whole
+        }
     }
 }
 
-- 
2.43.0


From 0988e8657e11618eb4b3f849baddf8543421ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 05/19] fix: sqrt of -0.0 and of infinity

---
 src/float/sqrt.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..134ddd4 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -10,7 +10,12 @@ impl F32 {
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
         if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+            // the approximation would neither ignore the sign of -0.0 nor keep infinity
+            if self.is_infinite() {
+                return self;
+            }
+
+            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From e17463770048abdaadb64b42943b70c593cabfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 06/19] fix: invsqrt of negative numbers and NaN (overflow
 panic or garbage)

---
 src/float/invsqrt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..742cc82 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,8 +6,14 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        if self >= Self::ZERO {
+            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
+        } else {
+            Self::NAN
+        }
     }
 }
 
-- 
2.43.0


From 8b9954a169eec7218521115f61beb1fd223b042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 07/19] fix: inv of negative numbers

---
 src/float/inv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..b016c7e 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,8 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
-- 
2.43.0


From 5e077a6b664bf5fb072dd519111d5609058110a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 08/19] fix: recip of magnitudes above 1.6e38, infinities and
 NaN

---
 src/float/recip.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/float/recip.rs b/src/float/recip.rs
index 3e14841..06f4e69 100644
--- a/src/float/recip.rs
+++ b/src/float/recip.rs
@@ -5,12 +5,16 @@ use super::F32;
 impl F32 {
     /// Returns the reciprocal (inverse) of a number, `1/x`.
     pub fn recip(self) -> Self {
+        if self.is_infinite() {
+            return Self::ZERO.copysign(self);
+        }
+
         let mut x = self;
 
         let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
         x *= sx;
 
-        let mut v = F32(f32::from_bits(0x7EF1_27EAu32.wrapping_sub(x.to_bits())));
+        let mut v = F32(f32::from_bits(0x7EF1_27EAu32.saturating_sub(x.without_sign().to_bits())));
         let w = x * v;
 
         // v.0 *= 2.0 - w;
@@ -18,7 +22,7 @@ impl F32 {
         v.0 *=
             8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))));
 
-        v.0 * sx
+        v.copysign(self)
     }
 }
 
-- 
2.43.0


From 2b1e8c29aa34a1b124b5d1d137ed94b166d598fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 09/19] fix: atan and acos no longer NaN where the square
 overflows

---
 src/float/atan.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..d845b64 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -27,7 +27,11 @@ impl F32 {
         // Calculate the arctangent in the first quadrant
         let bx_a = (B * self).abs();
         let n = bx_a + self * self;
-        let atan_1q = n / (1.0 + bx_a + n);
+        let atan_1q = if n.is_infinite() {
+            Self::ONE
+        } else {
+            n / (1.0 + bx_a + n)
+        };
 
         // Restore the sign bit and convert to float
         Self::from_bits(ux_s | atan_1q.to_bits())
-- 
2.43.0


From 5c2e0a925ef7152c2049a71ec6f4f3faaca0bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 10/19] fix: atan2 no longer NaN where squares overflow or
 underflow

---
 src/float/atan2.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..030bee7 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -24,8 +24,18 @@ impl F32 {
         const SIGN_MASK: u32 = 0x8000_0000;
         const B: f32 = 0.596_227;
 
-        let y = self;
-        let x = rhs;
+        let mut y = self;
+        let mut x = rhs;
+
+        // Keep the squares below in range
+        let max = y.abs().0.max(x.abs().0);
+        if max > 1e18 {
+            y *= 1e-20;
+            x *= 1e-20;
+        } else if max < 1e-18 {
+            y *= 1e30;
+            x *= 1e30;
+        }
 
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
-- 
2.43.0


From 770c4cc5541cc0af1c4cb0489b17aab5614dead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 11/19] fix: atan2 of two zeros and the documented range of
 atan2_norm

---
 src/float/atan2.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index 030bee7..f53c5ba 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -41,6 +41,10 @@ impl F32 {
         let ux_s = SIGN_MASK & x.to_bits();
         let uy_s = SIGN_MASK & y.to_bits();
 
+        if x == Self::ZERO && y == Self::ZERO {
+            return Self::ZERO;
+        }
+
         // Determine quadrant offset
         let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;
 
@@ -51,7 +55,14 @@ impl F32 {
 
         // Translate it to the proper quadrant
         let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
-        Self(q) + Self::from_bits(uatan_2q)
+        let norm = Self(q) + Self::from_bits(uatan_2q);
+
+        // A tiny negative angle rounds up to the excluded end of the range
+        if norm >= 4.0 {
+            Self::ZERO
+        } else {
+            norm
+        }
     }
 }
 
-- 
2.43.0


From f73075d7192d0d38642c527e6817969c7ade868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 12/19] fix: exp between 88.72 and 89.42 (panic or NaN) and of
 NaN

---
 src/float/exp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..01ae841 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -14,6 +14,10 @@ impl F32 {
 
     /// Exp approximation for `f32`.
     pub(crate) fn exp_ln2_approx(self, partial_iter: u32) -> Self {
+        if self.is_nan() {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::ONE;
         }
@@ -46,7 +50,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > EXPONENT_BIAS as i32 {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From a7d88905186735eb419d4e6a75a26c928f3688cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 13/19] fix: ln of values below one (up to 0.12 off), of
 negatives and infinity

---
 src/float/ln.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..9776713 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -14,6 +14,14 @@ impl F32 {
     // ln(1.0->2.0) polynomial
     #[allow(clippy::excessive_precision)]
     pub fn ln(self) -> Self {
+        if self.is_sign_negative() && self != Self::ZERO {
+            return Self::NAN;
+        }
+
+        if self.is_infinite() {
+            return self;
+        }
+
         // x may essentially be 1.0 but, as clippy notes, these kinds of
         // floating point comparisons can fail when the bit pattern is not the sames
         if (self - Self::ONE).abs() < f32::EPSILON {
@@ -24,7 +32,11 @@ impl F32 {
 
         // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
         // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
+        let x_working = if x_less_than_1 {
+            Self((1.0 / self.abs().0).min(f32::MAX))
+        } else {
+            self
+        };
 
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
         // get exponent value
-- 
2.43.0


From 8a384d0b87d9268f646d5da467b47c801763053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 14/19] fix: powf of negative numbers with powers of magnitude
 below one or above 2^32

---
 src/float.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..e6eccb3 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -211,6 +211,16 @@ impl F32 {
         let exponent = self.extract_exponent_value();
         let self_bits = self.to_bits();
 
+        // only a fraction
+        if exponent < 0 {
+            return *self == Self::ZERO;
+        }
+
+        // too large to have a fraction (don't overshift below)
+        if exponent >= MANTISSA_BITS as i32 {
+            return !self.is_nan();
+        }
+
         // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
-- 
2.43.0


From 19e554de7eeaf1ea0e67d111b5ac880ec134dfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 15/19] fix: powi overflow panics, early outs for representable
 results, and NaN

---
 src/float/powi.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..b45cae7 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
@@ -23,6 +23,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         // 0.0 == 0.0 and -0.0 according to IEEE standards.
         if self == Self::ZERO && n > 0 {
             return self;
@@ -33,7 +37,11 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            // |self| is between 2^exponent and 2^(exponent + 1)
+            let exponent = self.extract_exponent_value();
+            let (exponent_1, exponent_2) =
+                (exponent.saturating_mul(n), (exponent + 1).saturating_mul(n));
+            let approx_final_exponent = exponent_1.min(exponent_2);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
@@ -44,7 +52,7 @@ impl F32 {
                 } else {
                     return Self::NEG_INFINITY;
                 }
-            } else if approx_final_exponent < min_representable_exponent {
+            } else if exponent_1.max(exponent_2) < min_representable_exponent {
                 // We may want to copy the sign and do the same thing as above,
                 // but that seems like an awful amount of work when 99.99999% of people only care
                 // about bare zero
-- 
2.43.0


From bf44790a6bb1ad364eecb1a4474e4ce2605fab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 16/19] fix: cosh within its documented error

---
 src/float/cosh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/cosh.rs b/src/float/cosh.rs
index 4bcf7bc..a138da8 100644
--- a/src/float/cosh.rs
+++ b/src/float/cosh.rs
@@ -9,8 +9,8 @@ impl F32 {
     /// ## Arguments
     /// * `self` - The angle in radians.
     pub fn cosh(self) -> Self {
-        let exp_x = self.exp();
-        let exp_neg_x = (-self).exp();
+        let exp_x = self.exp_ln2_approx(5);
+        let exp_neg_x = (-self).exp_ln2_approx(5);
         (exp_x + exp_neg_x) / 2.0
     }
 }
-- 
2.43.0


From 7221e12bb6e3a5dd3008756f58b32f87c3b132e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 17/19] fix: rotation between opposite or nearly opposite
 vectors

---
 src/quaternion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..afeaa0f 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,14 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
+        let n_uv_sq = F32(u.dot(u).into() * v.dot(v).into());
+        let mut n_uv = n_uv_sq.sqrt();
+
+        // The error of `sqrt` would hide that the vectors are opposite: refine it
+        for _ in 0..3 {
+            n_uv = (n_uv + n_uv_sq / n_uv) * 0.5;
+        }
+
         let mut realpart = n_uv + u.dot(v).into();
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From bac195ca8ac5ca616ab41e156857d81c88c9c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 18/19] fix: pitch of quaternions whose rounding takes it past
 90 degrees is NaN

---
 src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index afeaa0f..98a80a2 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -209,7 +209,7 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        let p = F32((2. * (self.0 * self.2 - self.1 * self.3)).clamp(-1., 1.)).asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0


From 4eb93070a23a0688e093f41ba99e774956087818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 19/19] fix: atan2 just below the negative x axis is -pi, not
 pi

---
 src/float/atan2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f53c5ba..a931217 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -15,7 +15,9 @@ impl F32 {
     /// - `y < 0`: `arctan(y/x) - pi` -> `(-pi, -pi/2)`
     pub fn atan2(self, rhs: Self) -> Self {
         let n = self.atan2_norm(rhs);
-        PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }
+        // just below the negative x axis `n` rounds to exactly 2
+        let below = n > 2.0 || (n == 2.0 && self < 0.0);
+        PI / 2.0 * if below { n - 4.0 } else { n }
     }
 
     /// Approximates `atan2(y,x)` normalized to the `[0, 4)` range with a maximum
-- 
2.43.0

