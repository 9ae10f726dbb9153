From 655c1637fd6612fcc04639473212570557b9b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 01/16] Add model checking hooks behind cfg(babs_mc)

---
 src/lib.rs      |  4 ++++
 src/mc.rs       | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 src/ubig.rs     |  3 +++
 src/ubig/div.rs |  3 +++
 src/ubig/mul.rs |  6 ++++++
 5 files changed, 62 insertions(+)
 create mode 100644 src/mc.rs

diff --git a/src/lib.rs b/src/lib.rs
index fd9b01c..ae51b4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,8 +14,12 @@
 
 // Clippy does not like Allman indentation.
 #![allow(clippy::suspicious_else_formatting)]
+// `cfg(babs_mc)` guards the hooks used for model checking. It is never set in a normal build.
+#![allow(unexpected_cfgs)]
 
 mod digit;
+#[cfg(babs_mc)]
+pub mod mc;
 mod result;
 mod ubig;
 
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..9e3df14
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,46 @@
+// Copyright, 2021, Gé Vissers
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Hooks for model checking, only compiled with `--cfg babs_mc`. The tuning thresholds of the
+//! library are taken from environment variables at compile time, so that all algorithms can be
+//! exercised on numbers small enough to enumerate exhaustively. Unset variables leave the threshold
+//! at its normal value. The traits for digits are exported, so that digits with a very small radix
+//! can be plugged in.
+
+pub use crate::digit::{Digit, DigitStorage};
+
+/// Parse a decimal number, or return the default value `def` if there is none.
+const fn parse(s: Option<&str>, def: usize) -> usize
+{
+    match s
+    {
+        None => def,
+        Some(s) => {
+            let bytes = s.as_bytes();
+            let mut n = 0;
+            let mut i = 0;
+            while i < bytes.len()
+            {
+                n = 10 * n + (bytes[i] - b'0') as usize;
+                i += 1;
+            }
+            n
+        }
+    }
+}
+
+pub const KARATSUBA_CUTOFF: usize = parse(option_env!("BABS_MC_KARATSUBA_CUTOFF"), 20);
+pub const TOOM3_CUTOFF: usize = parse(option_env!("BABS_MC_TOOM3_CUTOFF"), 128);
+pub const BZ_CUTOFF: usize = parse(option_env!("BABS_MC_BZ_CUTOFF"), 20);
+pub const TO_DEC_DIV_CUTOFF: usize = parse(option_env!("BABS_MC_TO_DEC_DIV_CUTOFF"), 16);
diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..3271697 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -30,7 +30,10 @@ use std::fmt::Write;
 
 /// Minimum number size (in digits) for which the conversion from binary to decimal numbers uses
 /// division by powers of 10 instead of building up the result by shifting and adding
+#[cfg(not(babs_mc))]
 const TO_DEC_DIV_CUTOFF: usize = 16;
+#[cfg(babs_mc)]
+const TO_DEC_DIV_CUTOFF: usize = crate::mc::TO_DEC_DIV_CUTOFF;
 
 /// Structure describing a big number as a series of digits. The base of the number is determined
 /// by the digit type `T`. The digits are stored in little-endian order, i.e. the least significant
diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..2982bf4 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -20,7 +20,10 @@ use crate::result::{Error, Result};
 use crate::ubig::support::drop_leading_zeros;
 
 /// Minimum number of digits in denominator for using Burnikel-Ziegler division
+#[cfg(not(babs_mc))]
 const BZ_CUTOFF: usize = 20;
+#[cfg(babs_mc)]
+const BZ_CUTOFF: usize = crate::mc::BZ_CUTOFF;
 
 /// Calculate the remainder after dividing the number or number part represented by the digits in
 /// `nr` by the single digit `fac`. If `fac` is zero, a `DivisionByZero` error is returned.
diff --git a/src/ubig/mul.rs b/src/ubig/mul.rs
index 6dbb334..1c8b40e 100644
--- a/src/ubig/mul.rs
+++ b/src/ubig/mul.rs
@@ -19,9 +19,15 @@ mod toom3;
 use crate::digit::Digit;
 
 /// The minimum size of a number (in digits) for Karatsuba multiplication. Should be at least 4.
+#[cfg(not(babs_mc))]
 const KARATSUBA_CUTOFF: usize = 20;
+#[cfg(babs_mc)]
+const KARATSUBA_CUTOFF: usize = crate::mc::KARATSUBA_CUTOFF;
 /// The minimum size of a number (in digits) for Toom-Cook multiplication.
+#[cfg(not(babs_mc))]
 const TOOM3_CUTOFF: usize = 128;
+#[cfg(babs_mc)]
+const TOOM3_CUTOFF: usize = crate::mc::TOOM3_CUTOFF;
 
 /// Double the number or number part in `nr`, and add carry to the result. Returns `true` if the
 /// result overflows, `flase` otherwise.
-- 
2.43.0


From 52a229427a19a38069ce8987bb411a44ec89b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 02/16] fix: subtract two-digit word from decimal number

The number of digits after subtracting the high part did not count the first
digit, so the result was truncated; and if the number consisted of a single
digit, slicing it after subtracting the low part could be out of bounds.
---
 src/ubig/ops.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..3d3c645 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -862,8 +862,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         else
         {
             let (high, low) = DecimalDigit::split(n);
-            *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
+            match super::sub::sub_assign_big(&mut self.digits, &[low, high])
             {
                 Ok(nd) => { self.digits.truncate(nd); },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
-- 
2.43.0


From 9eed71299902c8f6c79c18fbaf53f1be570e775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 03/16] fix: drop leading zero after subtracting a single digit

Subtracting a digit equal to a one-digit number left a zero digit behind, so
that the result did not compare equal to zero.
---
 src/ubig/sub.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..bf888a2 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
-- 
2.43.0


From ef073f5a66b63c38bb0fb9107693c68d25d4e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 04/16] fix: drop all leading zeros after a subtraction with
 borrow

When the borrow consumed the top digit, the digits below it may be zero as well,
e.g. in 0x10000 - 0xff01. These were counted as part of the result.
---
 src/ubig/sub.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index bf888a2..9fee92b 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From a006d43418541f8e6d973f6deb3683606847ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 05/16] fix: shifting zero to the left yields zero

Shifting zero left by whole digits inserted zero digits into the number. For a
decimal zero, the power of two was computed even though it is not needed.
---
 src/ubig/ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 3d3c645..6e1d99d 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -704,6 +704,11 @@ where BinaryDigit<T>: Digit
 {
     fn shl_assign(&mut self, n: usize)
     {
+        if self.digits.is_empty()
+        {
+            return;
+        }
+
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if low != 0
         {
@@ -725,6 +730,11 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 {
     fn shl_assign(&mut self, n: usize)
     {
+        if self.is_zero()
+        {
+            return;
+        }
+
         if n <= 4 * DecimalDigit::<T>::MAX_HEX_PLACES
         {
             let carry = super::shl::shl_carry_assign_within_digit(&mut self.digits, n, DecimalDigit::zero());
-- 
2.43.0


From e35d15b19d6a829df17591d5b908a3cdde5ff170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 06/16] fix: shift binary number right past its end

Shifting out more digits than the number has panicked, the result should be zero.
---
 src/ubig/ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 6e1d99d..f0a7e52 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -780,6 +780,11 @@ where BinaryDigit<T>: Digit
     fn shr_assign(&mut self, n: usize)
     {
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
+        if high >= self.digits.len()
+        {
+            self.digits.clear();
+            return;
+        }
         if high != 0
         {
             self.digits.drain(..high);
-- 
2.43.0


From e2f7b1a6dd4b8bde0350d328c600057eaa29085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 07/16] fix: implement large right shifts of decimal numbers

---
 src/ubig/ops.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index f0a7e52..20f3461 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -813,10 +813,15 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.truncate(nd);
             }
         }
+        else if n / BinaryDigit::<T>::NR_BITS >= self.nr_digits()
+        {
+            self.digits.clear();
+        }
         else
         {
-            // FIXME
-            unimplemented!()
+            let two = UBig::one() + UBig::one();
+            let scale: Self = two.pow(n);
+            *self /= scale;
         }
     }
 }
-- 
2.43.0


From 55c5cb29e4df06aefdfc3845050f1a903d49c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/16] fix: keep numerator when division by zero fails

On division by zero, div_assign_big() returned an error, but the number itself
was replaced by a list of zeros.
---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 3271697..78448a3 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -236,7 +236,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From cde5b9427cffbfdc97d5b890351df7351885205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 09/16] fix: reject plus signs between digits when parsing

from_str_radix() accepts a leading plus sign for each group of digits, so that
e.g. "12+3" was accepted as a number.
---
 src/ubig.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 78448a3..9237c1a 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -419,6 +419,11 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else if let Some(s) = s.strip_prefix("0x")
         {
+            if !s.bytes().all(|c| c.is_ascii_hexdigit())
+            {
+                return Err(Error::InvalidNumber);
+            }
+
             let mut digits = Vec::with_capacity(s.len() / BinaryDigit::<T>::NR_HEX_PLACES + 1);
             for part in s.as_bytes().rchunks(BinaryDigit::<T>::NR_HEX_PLACES)
             {
@@ -429,6 +434,11 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else
         {
+            if !s.bytes().all(|c| c.is_ascii_digit())
+            {
+                return Err(Error::InvalidNumber);
+            }
+
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let ten = (T::one() << 3) + (T::one() << 1);
             let scale = BinaryDigit(ten.pow(BinaryDigit::<T>::MAX_DECIMAL_PLACES));
@@ -456,6 +466,11 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else if let Some(s) = s.strip_prefix("0x")
         {
+            if !s.bytes().all(|c| c.is_ascii_hexdigit())
+            {
+                return Err(Error::InvalidNumber);
+            }
+
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let scale = DecimalDigit(T::one() << (4 * DecimalDigit::<T>::MAX_HEX_PLACES));
             let mut result = Self::zero();
@@ -468,6 +483,11 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else
         {
+            if !s.bytes().all(|c| c.is_ascii_digit())
+            {
+                return Err(Error::InvalidNumber);
+            }
+
             let mut digits = Vec::with_capacity(s.len() / DecimalDigit::<T>::NR_DECIMAL_PLACES + 1);
             for part in s.as_bytes().rchunks(DecimalDigit::<T>::NR_DECIMAL_PLACES)
             {
-- 
2.43.0


From 7ed0640fc9141f6adc44c740fe27b2b224ca8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 10/16] fix: pad low part of number when converting to decimal

When the low part of the number has fewer decimal digits than the power of the
radix split off, zeros should be inserted before appending the high part.
---
 src/ubig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 9237c1a..6cad05f 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -339,7 +339,12 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                if !high_dec.is_zero()
+                {
+                    // scales[idx] is the decimal radix raised to the power 2^idx
+                    res.digits.resize(1 << idx, DecimalDigit::zero());
+                    res.digits.extend(high_dec.digits);
+                }
                 res
             }
         }
-- 
2.43.0


From ef199cc5e358b91ea2454f89fa788a015ef6ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 11/16] fix: limit quotient digit to the radix when dividing by
 digit pair

When the high digit of the remainder equals that of the denominator, the estimate
for the quotient digit does not fit in a digit, and was truncated. E.g.
0x80fe00 / 0x80ff yielded 1.
---
 src/ubig/div.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index 2982bf4..f1b49c2 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -102,8 +102,12 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    let mut quot = T::MAX;
+                    if rem_high < den_high
+                    {
+                        quot = rem_low;
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
-- 
2.43.0


From 7a4356bd54a79176fb3e26e0ad70a353b12c11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 12/16] fix: limit quotient digit to the radix in long division

As for division by a digit pair, the estimate for the quotient digit may be equal
to the radix or slightly larger.
---
 src/ubig/div/long.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..57eb4c3 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -102,8 +102,12 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        q = T::MAX;
+        if num[iq+nden] < msd
+        {
+            q = num[iq+nden-1];
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From f6c5665d29a85fe369fb748ae95c0c4ea3b3896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 13/16] fix: scale numbers without overflow before division

Shifting the denominator of a decimal division such that its most significant
digit does not overflow can still overflow the number as a whole, because of the
carry from the lower digits. This carry was lost, e.g. when dividing by 163 with
UBigDec8. Multiply by radix / (most significant digit + 1) instead, which for
binary numbers is as good as a shift and never overflows.
---
 src/ubig/div.rs      | 36 ++++++++++++++++++++++++++++--------
 src/ubig/div/bz.rs   |  8 ++++----
 src/ubig/div/long.rs | 12 ++++++------
 3 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index f1b49c2..63e396f 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -71,6 +71,26 @@ where T: Digit
     }
 }
 
+/// Return the factor by which the numerator and denominator of a division should be multiplied, such
+/// that the most significant digit of the denominator becomes at least half the radix of the number.
+/// Here, `msd` is the most significant digit of the denominator before scaling. The number of digits
+/// in the denominator does not change by scaling, whatever its other digits are.
+fn scale_factor<T>(msd: T) -> T
+where T: Digit
+{
+    let mut msd = msd;
+    if msd.inc()
+    {
+        T::one()
+    }
+    else
+    {
+        let mut fac = T::zero();
+        fac.div_carry_assign(msd, T::one());
+        fac
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -89,14 +109,14 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
+                let scale = scale_factor(fac_high);
                 let (mut den_low, mut den_high) = (fac_low, fac_high);
                 let mut rem_high = T::zero();
-                if shift > 0
+                if scale > T::one()
                 {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
-                    rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
+                    let carry = den_low.mul_carry_assign(scale, T::zero());
+                    den_high.mul_carry_assign(scale, carry);
+                    rem_high = crate::ubig::mul::mul_add_assign_digit(nr, scale, T::zero());
                 }
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
 
@@ -137,10 +157,10 @@ where T: Digit
                     *digit = quot;
                 }
 
-                if shift > 0
+                if scale > T::one()
                 {
-                    let carry = rem_high.shr_carry_assign(shift, T::zero());
-                    rem_low.shr_carry_assign(shift, carry);
+                    let carry = rem_high.div_carry_assign(scale, T::zero());
+                    rem_low.div_carry_assign(scale, carry);
                 }
                 let nquot = drop_leading_zeros(nr, n);
 
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..2c58878 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,13 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let scale = super::scale_factor(sden[n-1]);
+    crate::ubig::mul::mul_add_assign_digit(&mut sden, scale, T::zero());
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::mul::mul_add_assign_digit(&mut snum[n-nden..n-nden+nnum+1], scale, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +58,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = super::div_assign_digit(&mut snum[n-nden..n], scale).unwrap();
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 57eb4c3..6496c17 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -39,22 +39,22 @@ where T: Digit
         || (quot.len() >= nnum - nden && crate::ubig::cmp::lt(&num[nnum-nden..], den)));
     debug_assert!(work.len() >= calc_div_long_work_size(nden));
 
-    let shift = den[nden-1].max_shift() as usize;
-    if shift == 0
+    let scale = super::scale_factor(den[nden-1]);
+    if scale == T::one()
     {
         div_big_long_scaled(num, T::zero(), den, quot, work)
     }
     else
     {
-        // Shift numerator and denominator such that the most significant digit of the denominator
+        // Scale numerator and denominator such that the most significant digit of the denominator
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
-        let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
+        crate::ubig::mul::mul_add_assign_digit(&mut scaled_den, scale, T::zero());
+        let num_msd = crate::ubig::mul::mul_add_assign_digit(num, scale, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
-        let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut num[..nrem], shift, T::zero());
+        let (nrem, _) = super::div_assign_digit(&mut num[..nrem], scale).unwrap();
         (nquot, nrem)
     }
 }
-- 
2.43.0


From 849c59e247d6eb3f9f752c557456bfec604c1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 14/16] Export result type with model checking hooks

---
 src/mc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc.rs b/src/mc.rs
index 9e3df14..39088ad 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -19,6 +19,7 @@
 //! can be plugged in.
 
 pub use crate::digit::{Digit, DigitStorage};
+pub use crate::result::{Error, Result};
 
 /// Parse a decimal number, or return the default value `def` if there is none.
 const fn parse(s: Option<&str>, def: usize) -> usize
-- 
2.43.0


From b7f35b5222bdc80b201dbbf26c48947fba251eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 15/16] fix: do not store quotient digit corrected to zero in
 long division

---
 src/ubig/div/long.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 6496c17..291f892 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,7 +96,14 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From 1962b5143af5898301db80640b07dafc73384da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 16/16] fix: clear scratch space when squaring with Toom-3

---
 src/ubig/mul/toom3.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..ab38e54 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,9 +306,11 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
+    work.fill(T::zero());
     let (r1, work) = work.split_at_mut(2*b+3);
     let (rm1, rm2) = work.split_at_mut(2*b+3);
 
-- 
2.43.0

