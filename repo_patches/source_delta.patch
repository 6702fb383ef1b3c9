From 97207abd1cc392b21054df51128643035b21de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 01/12] fix: subtract native integers that need two decimal
 digits

The number was truncated to one digit too few, and subtracting from a number
without digits indexed past its end.
---
 src/ubig/ops.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..12d9838 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -862,12 +862,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         else
         {
             let (high, low) = DecimalDigit::split(n);
-            *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
-            {
-                Ok(nd) => { self.digits.truncate(nd); },
-                Err(err) => { panic!("Failed to subtract: {}", err); }
-            }
+            *self -= UBig { digits: vec![low, high] };
         }
     }
 }
-- 
2.43.0


From a6b64c0f006a1418c035a2d46682b6b828131c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 02/12] fix: drop leading zeros from a difference

A difference that became shorter than the minuend kept its leading zero digits
when no borrow was needed past the subtracted digit, or when a borrow ran into
the minuend's remaining digits. Such numbers did not compare equal to others of
the same value.
---
 src/ubig/sub.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..b5a4fef 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -69,11 +69,11 @@ where T: Digit
     else if nr[0].sub_carry_assign(digit, false)
     {
         let nd = dec_assign(&mut nr[1..])?;
-        Ok(1 + nd)
+        Ok(drop_leading_zeros(nr, 1 + nd))
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From d30a5abe51b3d1d89778987d9d1a5ae1c6441799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 03/12] fix: keep zero canonical when it is shifted left

Shifting zero left by at least one digit gave a number of only zero digits,
which did not equal zero, or ran out of memory for large counts.
---
 src/ubig/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 12d9838..8f5ba14 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.is_zero()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
@@ -733,7 +733,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        else
+        else if !self.is_zero()
         {
             let two = UBig::one() + UBig::one();
             let scale = two.pow(n);
-- 
2.43.0


From dcfeed874034ce2a9fddb2c4b0b6fb7ffc7ad882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 04/12] fix: right shift of a binary number by more than its
 length

Shifting by more digits than the number has panicked instead of giving zero.
---
 src/ubig/ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 8f5ba14..59c319a 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -770,6 +770,11 @@ where BinaryDigit<T>: Digit
     fn shr_assign(&mut self, n: usize)
     {
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
+        if high >= self.nr_digits()
+        {
+            self.digits.clear();
+            return;
+        }
         if high != 0
         {
             self.digits.drain(..high);
-- 
2.43.0


From fcecab343c3b6cf832629de07241b0145161a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 05/12] fix: implement right shifts of decimal numbers by any
 count

Shifts that do not fit in a single digit were unimplemented and panicked.
---
 src/ubig/ops.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 59c319a..c006a6b 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -795,18 +795,17 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 {
     fn shr_assign(&mut self, n: usize)
     {
-        if n <= 4 * DecimalDigit::<T>::MAX_HEX_PLACES
+        let max_shift = 4 * DecimalDigit::<T>::MAX_HEX_PLACES;
+        let mut rem_shift = n;
+        while rem_shift > 0 && !self.is_zero()
         {
-            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, n, DecimalDigit::zero());
+            let shift = rem_shift.min(max_shift);
+            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, shift, DecimalDigit::zero());
             if nd < self.nr_digits()
             {
                 self.digits.truncate(nd);
             }
-        }
-        else
-        {
-            // FIXME
-            unimplemented!()
+            rem_shift -= shift;
         }
     }
 }
-- 
2.43.0


From 254c80dcf555f01667e03e68ea401d0215813196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 06/12] fix: leave the dividend alone when dividing by zero
 fails

div_assign_big() returned the error, but left the number replaced by zeros.
---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..552fc90 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From c2f8b61eae9a20574dee3c57a3b49554c79ed1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 07/12] fix: estimate of a quotient digit when the leading
 digits are equal

When the remainder and the denominator share their most significant digit, the
estimated quotient digit does not fit in a digit: it wrapped around, giving a
wrong quotient.
---
 src/ubig/div.rs      | 23 +++++++++++++++++++++--
 src/ubig/div/long.rs |  3 +--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..f9f7091 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -68,6 +68,26 @@ where T: Digit
     }
 }
 
+/// Estimate a digit of the quotient from the two most significant digits of the remainder,
+/// `rem_high*b + rem_low`, and the most significant digit `den_high` of the denominator. The
+/// estimate is limited to the highest value a digit can have, which occurs when `rem_high` is
+/// equal to `den_high`.
+#[inline]
+fn estimate_quotient_digit<T>(rem_high: T, rem_low: T, den_high: T) -> T
+where T: Digit
+{
+    if rem_high >= den_high
+    {
+        T::MAX
+    }
+    else
+    {
+        let mut quot = rem_low;
+        quot.div_carry_assign(den_high, rem_high);
+        quot
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -99,8 +119,7 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    let mut quot = estimate_quotient_digit(rem_high, rem_low, den_high);
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..e486469 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -102,8 +102,7 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        q = super::estimate_quotient_digit(num[iq+nden], num[iq+nden-1], msd);
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 7bccf692f810f27eeb8d6c6940e2c88a5856d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 08/12] fix: do not store a leading quotient digit that was
 corrected to zero

The quotient need not have room for that digit, so storing it could panic.
---
 src/ubig/div/long.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index e486469..15204fb 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,7 +96,14 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From f8f77db00a49d1f9f9806df6694ff0f8de1ae24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 09/12] fix: normalise a decimal denominator without losing its
 leading digit

---
 src/ubig/div.rs      | 28 ++++++++++++++++++++++++----
 src/ubig/div/bz.rs   |  7 +++----
 src/ubig/div/long.rs |  2 +-
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index f9f7091..8de929d 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -68,6 +68,27 @@ where T: Digit
     }
 }
 
+/// Shift denominator `den`, the most significant digit of which is not zero, left such that its
+/// most significant digit is at least half the radix. Returns the number of places by which the
+/// number was shifted.
+fn normalize<T>(den: &mut [T]) -> usize
+where T: Digit
+{
+    let mut shift = den[den.len()-1].max_shift() as usize;
+    if shift > 0
+    {
+        // If the radix is not a power of two, a carry from the lower digits can overflow the most
+        // significant digit. In that case the highest digit is also large enough with one less shift.
+        let carry = crate::ubig::shl::shl_carry_assign_within_digit(den, shift, T::zero());
+        if !carry.is_zero()
+        {
+            crate::ubig::shr::shr_carry_assign_within_digit(den, 1, carry);
+            shift -= 1;
+        }
+    }
+    shift
+}
+
 /// Estimate a digit of the quotient from the two most significant digits of the remainder,
 /// `rem_high*b + rem_low`, and the most significant digit `den_high` of the denominator. The
 /// estimate is limited to the highest value a digit can have, which occurs when `rem_high` is
@@ -106,13 +127,12 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
-                let (mut den_low, mut den_high) = (fac_low, fac_high);
+                let mut den = [fac_low, fac_high];
+                let shift = normalize(&mut den);
+                let [den_low, den_high] = den;
                 let mut rem_high = T::zero();
                 if shift > 0
                 {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
                     rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
                 }
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..c84e67a 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,12 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = super::normalize(&mut sden);
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +57,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 15204fb..5685d6b 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -50,7 +50,7 @@ where T: Digit
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
+        let shift = super::normalize(&mut scaled_den);
         let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
-- 
2.43.0


From eb26bb43d25cdc444b017c2028227d8abe168d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 10/12] fix: keep zeros inside a number when converting it to
 decimal

---
 src/ubig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 552fc90..432c212 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -336,7 +336,12 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                if !high_dec.is_zero()
+                {
+                    // The lower part occupies 2^idx decimal digits, including leading zeros
+                    res.digits.resize(1 << idx, DecimalDigit::zero());
+                    res.digits.extend(high_dec.digits);
+                }
                 res
             }
         }
-- 
2.43.0


From 5a92411ecd9fbedae0f27dcc282b96ea6545940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 11/12] fix: reject strings that are not numerals when parsing

---
 src/ubig.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 432c212..244b504 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -408,6 +408,12 @@ where T: DigitStorage, DecimalDigit<T>: Digit
     }
 }
 
+/// Return whether `s` consists of one or more digits in base `radix`, and nothing else.
+fn is_numeral(s: &str, radix: u32) -> bool
+{
+    !s.is_empty() && s.chars().all(|c| c.is_digit(radix))
+}
+
 impl<T> std::str::FromStr for UBig<BinaryDigit<T>>
 where T: DigitStorage, BinaryDigit<T>: Digit
 {
@@ -415,12 +421,12 @@ where T: DigitStorage, BinaryDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
-        {
-            Err(Error::InvalidNumber)
-        }
-        else if let Some(s) = s.strip_prefix("0x")
+        if let Some(s) = s.strip_prefix("0x")
         {
+            if !is_numeral(s, 16)
+            {
+                return Err(Error::InvalidNumber);
+            }
             let mut digits = Vec::with_capacity(s.len() / BinaryDigit::<T>::NR_HEX_PLACES + 1);
             for part in s.as_bytes().rchunks(BinaryDigit::<T>::NR_HEX_PLACES)
             {
@@ -431,6 +437,11 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
+            if !is_numeral(s, 10)
+            {
+                return Err(Error::InvalidNumber);
+            }
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let ten = (T::one() << 3) + (T::one() << 1);
             let scale = BinaryDigit(ten.pow(BinaryDigit::<T>::MAX_DECIMAL_PLACES));
@@ -452,12 +463,12 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
-        {
-            Err(Error::InvalidNumber)
-        }
-        else if let Some(s) = s.strip_prefix("0x")
+        if let Some(s) = s.strip_prefix("0x")
         {
+            if !is_numeral(s, 16)
+            {
+                return Err(Error::InvalidNumber);
+            }
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let scale = DecimalDigit(T::one() << (4 * DecimalDigit::<T>::MAX_HEX_PLACES));
             let mut result = Self::zero();
@@ -470,6 +481,11 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
+            if !is_numeral(s, 10)
+            {
+                return Err(Error::InvalidNumber);
+            }
             let mut digits = Vec::with_capacity(s.len() / DecimalDigit::<T>::NR_DECIMAL_PLACES + 1);
             for part in s.as_bytes().rchunks(DecimalDigit::<T>::NR_DECIMAL_PLACES)
             {
-- 
2.43.0


From 117542d1ed2c71153ee269df70c19c8c2f48fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 12/12] fix: clear the scratch space used for Toom-Cook
 squaring

---
 src/ubig/mul/toom3.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..ab38e54 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,9 +306,11 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
+    work.fill(T::zero());
     let (r1, work) = work.split_at_mut(2*b+3);
     let (rm1, rm2) = work.split_at_mut(2*b+3);
 
-- 
2.43.0

