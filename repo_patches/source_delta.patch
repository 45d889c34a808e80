From 51ab6c606701924653f280daf433948c17c174b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 01/36] fix: free a bigint when the last Any that holds it is
 dropped

AnyInternal::delete had no arm for bigints and panicked with unreachable!().
---
 nanvm-lib/src/js/any_internal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nanvm-lib/src/js/any_internal.rs b/nanvm-lib/src/js/any_internal.rs
index dfc1ace..44b553d 100644
--- a/nanvm-lib/src/js/any_internal.rs
+++ b/nanvm-lib/src/js/any_internal.rs
@@ -13,6 +13,7 @@ use crate::{
 use super::{
     bitset::{ref_type, REF, REF_SUBSET_SUPERPOSITION},
     js_array::JsArray,
+    js_bigint::JsBigint,
     js_object::JsObject,
     js_string::JsString,
 };
@@ -71,6 +72,7 @@ impl<D: Dealloc> OptionalBlock for AnyInternal<D> {
             bitset::REF_TYPE_STRING => p.block::<JsString, D>().delete(),
             bitset::REF_TYPE_OBJECT => p.block::<JsObject<D>, D>().delete(),
             bitset::REF_TYPE_ARRAY => p.block::<JsArray<D>, D>().delete(),
+            bitset::REF_TYPE_BIGINT => p.block::<JsBigint, D>().delete(),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 93d252ed5f913aa65a248d288a9524d03eccc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 02/36] fix: canonicalise NaN when a number is moved to Any

A NaN with the sign bit set is inside the EXTENSION tag and was read back as
another type (for example as a dangling reference).
---
 nanvm-lib/src/js/number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/js/number.rs b/nanvm-lib/src/js/number.rs
index 114a2c9..e29b895 100644
--- a/nanvm-lib/src/js/number.rs
+++ b/nanvm-lib/src/js/number.rs
@@ -9,6 +9,10 @@ impl<D: Dealloc> AnyCast<D> for f64 {
     }
     #[inline(always)]
     unsafe fn move_to_any_internal(self) -> u64 {
+        // The bit patterns of negative NaNs are used for other types, so keep one NaN only.
+        if self.is_nan() {
+            return Self::NAN.to_bits();
+        }
         self.to_bits()
     }
     #[inline(always)]
-- 
2.43.0


From 1bc2830ce88655ee481517f49475c4c3a26f910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 03/36] fix: never overestimate a quotient digit in div_mod

The estimated digit could be too big by more than one, which gave a wrong
result or an endless loop, for example for [0, 0, 1 << 63] / [1, 1 << 63].
---
 nanvm-lib/src/big_numbers/big_uint.rs | 18 ++++++++----------
 nanvm-lib/src/js/js_bigint.rs         | 18 ++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index a474620..c60b215 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -119,15 +119,17 @@ impl BigUint {
                     let a_high = a.value[a_high_digit];
                     let b_high = b.value[b_high_digit];
                     let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                        Ordering::Less | Ordering::Equal => {
-                            (a_high_digit - b_high_digit, a_high / b_high)
-                        }
-                        Ordering::Greater => {
+                        // `b_high + 1` is used because `b` can be almost `(b_high + 1) << ...`, so
+                        // the digit is never too big. The next iteration adds the rest.
+                        Ordering::Less => (a_high_digit - b_high_digit, a_high / (b_high + 1)),
+                        // `a >= b`
+                        Ordering::Equal if a_high_digit == b_high_digit => (0, 1),
+                        Ordering::Equal | Ordering::Greater => {
                             let a_high_2 =
                                 ((a_high as u128) << 64) + a.value[a_high_digit - 1] as u128;
                             (
                                 a_high_digit - b_high_digit - 1,
-                                (a_high_2 / b_high as u128) as u64,
+                                (a_high_2 / (b_high as u128 + 1)) as u64,
                             )
                         }
                     };
@@ -135,11 +137,7 @@ impl BigUint {
                         value: new_resize(q_index + 1),
                     };
                     q.value[q_index] = q_digit;
-                    let mut m = b * &q;
-                    if a.cmp(&m) == Ordering::Less {
-                        q.value[q_index] = q_digit - 1;
-                        m = b * &q;
-                    }
+                    let m = b * &q;
                     a = &a - &m;
                     result = &result + &q;
                 }
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 8d86358..164baad 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -235,24 +235,22 @@ pub fn div_mod<M: Manager>(
                 let a_high = a[a_high_digit];
                 let b_high = b[b_high_digit];
                 let (q_index, q_digit) = match b_high.cmp(&a_high) {
-                    Ordering::Less | Ordering::Equal => {
-                        (a_high_digit - b_high_digit, a_high / b_high)
-                    }
-                    Ordering::Greater => {
+                    // `b_high + 1` is used because `b` can be almost `(b_high + 1) << ...`, so
+                    // the digit is never too big. The next iteration adds the rest.
+                    Ordering::Less => (a_high_digit - b_high_digit, a_high / (b_high + 1)),
+                    // `a >= b`
+                    Ordering::Equal if a_high_digit == b_high_digit => (0, 1),
+                    Ordering::Equal | Ordering::Greater => {
                         let a_high_2 = ((a_high as u128) << 64) + a[a_high_digit - 1] as u128;
                         (
                             a_high_digit - b_high_digit - 1,
-                            (a_high_2 / b_high as u128) as u64,
+                            (a_high_2 / (b_high as u128 + 1)) as u64,
                         )
                     }
                 };
                 let mut q = new_resize(q_index + 1);
                 q[q_index] = q_digit;
-                let mut m = mul_vec(b, &q);
-                if a.cmp(&m) == Ordering::Less {
-                    q[q_index] = q_digit - 1;
-                    m = mul_vec(b, &q);
-                }
+                let m = mul_vec(b, &q);
                 a = sub_vec(&a, &m);
                 a = normalize_vec(a);
                 result = add_vec(&result, &q);
-- 
2.43.0


From afcabb5025b029eef0d19b8f1bed245a90381355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 04/36] fix: round numbers between 2^-1075 and 2^-1074 to the
 smallest subnormal

---
 nanvm-lib/src/big_numbers/big_float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index 77e01ad..b6c965f 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -210,7 +210,7 @@ impl<M: Manager> BigFloat<2, M> {
                 bits |= frac_bits;
                 bits
             }
-            -1074..=-1023 => {
+            -1075..=-1023 => {
                 let subnormal_precision = (f64_exp + 1076) as u64;
                 value.decrease_significand(subnormal_precision);
                 let frac = value.get_frac_round();
-- 
2.43.0


From 98ec298de1412e931fd19a620999f0f315892976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 05/36] fix: compare negative bigints of the same length by
 value

---
 nanvm-lib/src/js/js_bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 164baad..5b3ebf7 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -129,7 +129,10 @@ pub fn is_zero(value: &JsBigint) -> bool {
 impl JsBigint {
     pub fn compare(&self, other: &Self) -> Ordering {
         match self.header_len().cmp(&other.header_len()) {
-            Ordering::Equal => cmp_vec(self.items(), other.items()),
+            Ordering::Equal => match self.sign() {
+                Sign::Positive => cmp_vec(self.items(), other.items()),
+                Sign::Negative => cmp_vec(other.items(), self.items()),
+            },
             Ordering::Less => Ordering::Less,
             Ordering::Greater => Ordering::Greater,
         }
-- 
2.43.0


From 4de2fa909f477d9eaa17aaf077b8dee049ad2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 06/36] fix: pow of -1 to an odd exponent and pow_u64 of zero

(-1) ** odd gave 1, and pow_u64(0, n) panicked.
---
 nanvm-lib/src/js/js_bigint.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 5b3ebf7..c507a7c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -268,7 +268,11 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
     }
 
     if lhs.items().len() == 1 && lhs.items()[0] == 1 {
-        return from_u64(m, Sign::Positive, 1);
+        let sign = match rhs.get_last_bit() {
+            0 => Sign::Positive,
+            _ => lhs.sign(),
+        };
+        return from_u64(m, sign, 1);
     }
 
     if is_zero(lhs) {
@@ -291,6 +295,9 @@ pub fn pow<M: Manager>(m: M, lhs: &JsBigint, rhs: &JsBigint) -> JsBigintMutRef<M
 }
 
 pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) && rhs > 0 {
+        return zero(m);
+    }
     let mut res = [1].to_vec();
     let mut b = lhs.items().to_vec();
     let sign = if lhs.sign() == Sign::Positive || rhs & 1 == 0 {
@@ -298,14 +305,17 @@ pub fn pow_u64<M: Manager>(m: M, lhs: &JsBigint, mut rhs: u64) -> JsBigintMutRef
     } else {
         Sign::Negative
     };
+    if rhs == 0 {
+        return new_bigint(m, sign, res);
+    }
     loop {
-        if rhs == 0 {
-            return new_bigint(m, sign, res);
-        }
         if rhs & 1 > 0 {
             res = mul_vec(&res, &b);
         }
         rhs >>= 1;
+        if rhs == 0 {
+            return new_bigint(m, sign, res);
+        }
         b = mul_vec(&b, &b);
     }
 }
-- 
2.43.0


From 769bec6b108b1eedce40bf0ab4d57d524acf70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 07/36] fix: keep all digits of a negative result of and, or,
 xor

High zero digits of a negative number in two's complement are significant,
for example -(2 ** 64) & -(2 ** 64) is not -1.
---
 nanvm-lib/src/js/js_bigint.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index c507a7c..975ad79 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -411,18 +411,13 @@ fn to_twos_complement(value: &JsBigint) -> TwosComplement {
 
 fn from_twos_complement<M: Manager>(m: M, value: TwosComplement) -> JsBigintMutRef<M::Dealloc> {
     match value.sign {
-        Sign::Positive => new_bigint(m, Sign::Positive, value.vec),
+        Sign::Positive => new_bigint(m, Sign::Positive, normalize_vec(value.vec)),
         Sign::Negative => {
-            let sub = sub_vec(&value.vec, &[1]);
             let mut res: Vec<u64> = default();
-            for d in sub {
+            for d in value.vec {
                 res.push(!d);
             }
-            res = normalize_vec(res);
-            if res.is_empty() {
-                return from_u64(m, Sign::Negative, 1);
-            }
-            new_bigint(m, Sign::Negative, res)
+            new_bigint(m, Sign::Negative, normalize_vec(add_vec(&res, &[1])))
         }
     }
 }
@@ -436,7 +431,6 @@ fn and_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a & b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -449,7 +443,6 @@ fn or_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosComplemen
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a | b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
@@ -462,7 +455,6 @@ fn xor_twos_complement(lhs: TwosComplement, rhs: TwosComplement) -> TwosCompleme
     for (a, b) in twos_complement_zip(&lhs, &rhs) {
         vec.push(a ^ b);
     }
-    vec = normalize_vec(vec);
     TwosComplement { sign, vec }
 }
 
-- 
2.43.0


From bf4b5bb2031fc73add4ca6a3c13cd5ee237ec5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 08/36] fix: move all bits between digits in a right shift and
 round down

Only one bit of the next digit was moved, and a negative number was truncated
instead of rounded towards negative infinity (-3 >> 1 is -2).
---
 nanvm-lib/src/big_numbers/big_uint.rs |  2 +-
 nanvm-lib/src/js/js_bigint.rs         | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index c60b215..279e889 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -331,7 +331,7 @@ impl Shr for &BigUint {
         let shift_mod = rhs.value[0] & ((1 << 6) - 1);
         if shift_mod > 0 {
             let len = value.len();
-            let mask = 1 << (shift_mod - 1);
+            let mask = (1 << shift_mod) - 1;
             let mut i = 0;
             loop {
                 value[i] >>= shift_mod;
diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index 975ad79..ddb79d0 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -581,12 +581,13 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
         return shr_on_big(m, lhs.sign());
     }
 
-    let mut vec = lhs.items().to_vec();
-    vec = vec.split_off(number_to_remove);
+    let mut removed = lhs.items().to_vec();
+    let mut vec = removed.split_off(number_to_remove);
     let shift_mod = rhs & ((1 << 6) - 1);
+    let mask = (1 << shift_mod) - 1;
+    removed.push(vec[0] & mask);
     if shift_mod > 0 {
         let len = vec.len();
-        let mask = 1 << (shift_mod - 1);
         let mut i = 0;
         loop {
             vec[i] >>= shift_mod;
@@ -599,8 +600,9 @@ pub fn shr_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<
     }
 
     vec = normalize_vec(vec);
-    if vec.is_empty() && lhs.sign() == Sign::Negative {
-        return from_u64(m, Sign::Negative, 1);
+    // Negative numbers are rounded towards negative infinity.
+    if lhs.sign() == Sign::Negative && !normalize_vec(removed).is_empty() {
+        vec = add_vec(&vec, &[1]);
     }
     new_bigint(m, lhs.sign(), vec)
 }
-- 
2.43.0


From bb1397100edfc36fc618a2795a42b1e7f362a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 09/36] fix: shl_on_u64 of zero is zero

It panicked with an integer overflow.
---
 nanvm-lib/src/js/js_bigint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/js/js_bigint.rs b/nanvm-lib/src/js/js_bigint.rs
index ddb79d0..8311a7c 100644
--- a/nanvm-lib/src/js/js_bigint.rs
+++ b/nanvm-lib/src/js/js_bigint.rs
@@ -551,6 +551,9 @@ fn cmp_vec(lhs: &[u64], rhs: &[u64]) -> Ordering {
 }
 
 pub fn shl_on_u64<M: Manager>(m: M, lhs: &JsBigint, rhs: u64) -> JsBigintMutRef<M::Dealloc> {
+    if is_zero(lhs) {
+        return zero(m);
+    }
     let mut vec = lhs.items().to_vec();
     let shift_mod = rhs & ((1 << 6) - 1);
     if shift_mod > 0 {
-- 
2.43.0


From 30cce96d8a5f1f582cc1b420be759a09fb083332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 10/36] fix: from_u64(0), from_i64(0) and from_i64(i64::MIN)

Zero was created with one zero digit, so it was not equal to ZERO and could be
used as a divisor; i64::MIN panicked.
---
 nanvm-lib/src/big_numbers/big_int.rs  | 6 ++----
 nanvm-lib/src/big_numbers/big_uint.rs | 3 +++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 78ee4be..9d7daa0 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -49,7 +49,7 @@ impl BigInt {
     pub fn from_u64(n: u64) -> Self {
         BigInt {
             sign: Sign::Positive,
-            value: BigUint { value: [n].cast() },
+            value: BigUint::from_u64(n),
         }
     }
 
@@ -71,9 +71,7 @@ impl BigInt {
         };
         BigInt {
             sign,
-            value: BigUint {
-                value: [(n * sign as i64) as u64].cast(),
-            },
+            value: BigUint::from_u64(n.unsigned_abs()),
         }
     }
 
diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 279e889..28b3c43 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -45,6 +45,9 @@ impl BigUint {
     }
 
     pub fn from_u64(n: u64) -> Self {
+        if n == 0 {
+            return BigUint::ZERO;
+        }
         BigUint { value: [n].cast() }
     }
 
-- 
2.43.0


From 7a901339e65696b8b1d47efcee377faa1b56f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 11/36] fix: BigUint >> by 2^64 or more is zero

---
 nanvm-lib/src/big_numbers/big_uint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/big_numbers/big_uint.rs b/nanvm-lib/src/big_numbers/big_uint.rs
index 28b3c43..5785dc0 100644
--- a/nanvm-lib/src/big_numbers/big_uint.rs
+++ b/nanvm-lib/src/big_numbers/big_uint.rs
@@ -324,6 +324,10 @@ impl Shr for &BigUint {
             return self.clone();
         }
 
+        if rhs.len() != 1 {
+            return BigUint::ZERO;
+        }
+
         let number_to_remove = (rhs.value[0] / 64) as usize;
         if number_to_remove >= self.len() {
             return BigUint::ZERO;
-- 
2.43.0


From f8d209cbe0f410391b798f23b6d6bb48b902e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 12/36] fix: order of negative BigInts, sign of the remainder,
 no negative zero

---
 nanvm-lib/src/big_numbers/big_int.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 9d7daa0..81d89dd 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -86,7 +86,14 @@ impl BigInt {
         };
 
         let (q, r) = self.value.div_mod(&d.value);
-        (BigInt { sign, value: q }, BigInt { sign, value: r })
+        let mut q = BigInt { sign, value: q };
+        q.normalize();
+        let mut r = BigInt {
+            sign: self.sign,
+            value: r,
+        };
+        r.normalize();
+        (q, r)
     }
 }
 
@@ -162,7 +169,10 @@ impl Ord for BigInt {
             return self.sign.cmp(&other.sign);
         }
 
-        self.value.cmp(&other.value)
+        match self.sign {
+            Sign::Positive => self.value.cmp(&other.value),
+            Sign::Negative => other.value.cmp(&self.value),
+        }
     }
 }
 
@@ -198,7 +208,9 @@ impl Div for &BigInt {
         };
 
         let value = &self.value / &d.value;
-        BigInt { sign, value }
+        let mut result = BigInt { sign, value };
+        result.normalize();
+        result
     }
 }
 
-- 
2.43.0


From 17f12150ae6ae4e679ce965ab6ceb1823e9296b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 13/36] fix: a semicolon ends a const or import statement

The serializer writes `const _0=[];` but the parser panicked with todo!() on
`const a=;` and returned NewLineExpected for a semicolon after a value.
---
 nanvm-lib/src/parser/const_state.rs | 37 +++++++++++++----------------
 nanvm-lib/src/parser/parser.rs      | 33 +++++++++++--------------
 nanvm-lib/src/parser/root_state.rs  |  8 +++++++
 3 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/nanvm-lib/src/parser/const_state.rs b/nanvm-lib/src/parser/const_state.rs
index 9f9b057..70bf373 100644
--- a/nanvm-lib/src/parser/const_state.rs
+++ b/nanvm-lib/src/parser/const_state.rs
@@ -12,28 +12,23 @@ pub struct ConstState<M: Manager> {
 
 impl<M: Manager> ConstState<M> {
     pub fn parse(self, manager: M, token: JsonToken<M::Dealloc>) -> JsonState<M> {
-        match token {
-            JsonToken::Semicolon => todo!(),
-            _ => {
-                // TODO: use import_path in place of _ below to track possible errors -
-                // or provide an explanation on why it's not necessary.
-                let (any_result, _) = self.state.parse(manager, token);
-                match any_result {
-                    AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                        key: self.key,
-                        state,
-                    }),
-                    AnyResult::Success(mut success) => {
-                        success.state.consts.insert(self.key, success.value);
-                        JsonState::ParseRoot(RootState {
-                            status: RootStatus::Initial,
-                            state: success.state,
-                            new_line: false,
-                        })
-                    }
-                    AnyResult::Error(error) => JsonState::Error(error),
-                }
+        // TODO: use import_path in place of _ below to track possible errors -
+        // or provide an explanation on why it's not necessary.
+        let (any_result, _) = self.state.parse(manager, token);
+        match any_result {
+            AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+                key: self.key,
+                state,
+            }),
+            AnyResult::Success(mut success) => {
+                success.state.consts.insert(self.key, success.value);
+                JsonState::ParseRoot(RootState {
+                    status: RootStatus::Initial,
+                    state: success.state,
+                    new_line: false,
+                })
             }
+            AnyResult::Error(error) => JsonState::Error(error),
         }
     }
 }
diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index ef2584d..d6c30d8 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -41,26 +41,21 @@ fn const_state_parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
     token: JsonToken<M::Dealloc>,
 ) -> JsonState<M> {
-    match token {
-        JsonToken::Semicolon => todo!(),
-        _ => {
-            let result = any_state_parse(const_state.state, context, token);
-            match result {
-                AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
-                    key: const_state.key,
-                    state,
-                }),
-                AnyResult::Success(mut success) => {
-                    success.state.consts.insert(const_state.key, success.value);
-                    JsonState::ParseRoot(RootState {
-                        status: RootStatus::Initial,
-                        state: success.state,
-                        new_line: false,
-                    })
-                }
-                AnyResult::Error(error) => JsonState::Error(error),
-            }
+    let result = any_state_parse(const_state.state, context, token);
+    match result {
+        AnyResult::Continue(state) => JsonState::ParseConst(ConstState {
+            key: const_state.key,
+            state,
+        }),
+        AnyResult::Success(mut success) => {
+            success.state.consts.insert(const_state.key, success.value);
+            JsonState::ParseRoot(RootState {
+                status: RootStatus::Initial,
+                state: success.state,
+                new_line: false,
+            })
         }
+        AnyResult::Error(error) => JsonState::Error(error),
     }
 }
 
diff --git a/nanvm-lib/src/parser/root_state.rs b/nanvm-lib/src/parser/root_state.rs
index 1b6c122..e8b31d5 100644
--- a/nanvm-lib/src/parser/root_state.rs
+++ b/nanvm-lib/src/parser/root_state.rs
@@ -41,6 +41,14 @@ impl<M: Manager> RootState<M> {
                     }),
                     None,
                 ),
+                // A semicolon ends a statement, the next one can be on the same line.
+                JsonToken::Semicolon if !self.new_line => (
+                    JsonState::ParseRoot(RootState {
+                        new_line: true,
+                        ..self
+                    }),
+                    None,
+                ),
                 JsonToken::Id(s) => match self.new_line {
                     true => match s.as_ref() {
                         "const" => (
-- 
2.43.0


From 171af2f79463fbfa91345da351b3088fd2f91fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 14/36] fix: a const statement keeps the module kind

`import`, `const` and then `module.exports` were accepted in one module because
const reset the data type to Djs.
---
 nanvm-lib/src/parser/any_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 59716bb..009aeb6 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -48,7 +48,7 @@ impl<M: Manager> Default for AnyState<M> {
 impl<M: Manager> AnyState<M> {
     pub fn set_djs(self) -> Self {
         AnyState {
-            data_type: DataType::Djs,
+            data_type: self.data_type.to_djs(),
             ..self
         }
     }
-- 
2.43.0


From 2fe290460b49778b17dad41e6a2aaa2f9768175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 15/36] fix: accept require as any item of an array

The first item could not be a require call, other items could be only after
`module.exports`.
---
 nanvm-lib/src/parser/any_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index 009aeb6..b96238d 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -262,7 +262,7 @@ impl<M: Manager> AnyState<M> {
         match token {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ObjectBegin => self.begin_object(),
-            JsonToken::Id(s) if self.data_type == DataType::Cjs && s == "require" => {
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
                 self.begin_import()
             }
             JsonToken::ArrayEnd => self.end_array(manager),
@@ -281,6 +281,9 @@ impl<M: Manager> AnyState<M> {
             JsonToken::ArrayBegin => self.begin_array(),
             JsonToken::ArrayEnd => self.end_array(manager),
             JsonToken::ObjectBegin => self.begin_object(),
+            JsonToken::Id(s) if self.data_type.is_cjs_compatible() && s == "require" => {
+                self.begin_import()
+            }
             _ => {
                 let option_any = token.try_to_any(manager, &self.consts);
                 match option_any {
-- 
2.43.0


From 61518a99fd21ae07eb59277f1689e098c3f6a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 16/36] fix: accept identifier keys after the first one in an
 object

---
 nanvm-lib/src/parser/any_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nanvm-lib/src/parser/any_state.rs b/nanvm-lib/src/parser/any_state.rs
index b96238d..efb6578 100644
--- a/nanvm-lib/src/parser/any_state.rs
+++ b/nanvm-lib/src/parser/any_state.rs
@@ -355,6 +355,7 @@ impl<M: Manager> AnyState<M> {
     pub fn parse_object_comma(self, manager: M, token: JsonToken<M::Dealloc>) -> AnyResult<M> {
         match token {
             JsonToken::String(s) => self.push_key(s),
+            JsonToken::Id(s) if self.data_type.is_djs() => self.push_key(s),
             JsonToken::ObjectEnd => self.end_object(manager),
             _ => AnyResult::Error(ParseError::UnexpectedToken),
         }
-- 
2.43.0


From 6fc3586f928e613e92a7b600e52fe5b67a58cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 17/36] fix: resolve an import relative to the module that
 contains it

Imports of an imported module were resolved relative to the root module.
---
 nanvm-lib/src/parser/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index d6c30d8..62b21c6 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -34,6 +34,11 @@ impl<'a, M: Manager, I: Io> Context<'a, M, I> {
             module_cache,
         }
     }
+
+    /// A context for a module that is imported from the current one.
+    fn nested(&mut self, path: String) -> Context<'_, M, I> {
+        Context::new(self.manager, self.io, path, self.module_cache)
+    }
 }
 
 fn const_state_parse<M: Manager + 'static, I: Io>(
@@ -98,7 +103,10 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
             match read_result {
                 Ok(s) => {
                     let tokens = tokenize(context.manager, s);
-                    let res = parse_with_tokens(context, tokens.into_iter());
+                    let res = parse_with_tokens(
+                        &mut context.nested(current_path.clone()),
+                        tokens.into_iter(),
+                    );
                     match res {
                         Ok(r) => {
                             context.module_cache.progress.remove(&current_path);
@@ -171,7 +179,10 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                 match read_result {
                     Ok(s) => {
                         let tokens = tokenize(context.manager, s);
-                        let res = parse_with_tokens(context, tokens.into_iter());
+                        let res = parse_with_tokens(
+                            &mut context.nested(current_path.clone()),
+                            tokens.into_iter(),
+                        );
                         match res {
                             Ok(r) => {
                                 context.module_cache.progress.remove(&current_path);
-- 
2.43.0


From 2249117f317bf92af50c464b508d3c80b0f6d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 18/36] fix: a module is in progress only while it is being
 loaded

When a load failed, or the root module was complete, its path stayed in the
progress set, and the next use of the same cache reported a false
CircularDependency. The path of the root module is normalized as others are.
---
 nanvm-lib/src/parser/parser.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/parser/parser.rs b/nanvm-lib/src/parser/parser.rs
index 62b21c6..9d5945b 100644
--- a/nanvm-lib/src/parser/parser.rs
+++ b/nanvm-lib/src/parser/parser.rs
@@ -2,7 +2,7 @@ use super::{
     any_state::{AnyResult, AnyState},
     const_state::ConstState,
     json_state::JsonState,
-    path::{concat, split},
+    path::{concat, normalize, split},
     root_state::{RootState, RootStatus},
     shared::{JsonElement, ModuleCache, ParseError, ParseResult, ParsingStatus},
 };
@@ -120,10 +120,16 @@ fn any_state_parse_import_value<M: Manager + 'static, I: Io>(
                                 ..any_state
                             })
                         }
-                        Err(e) => AnyResult::Error(e),
+                        Err(e) => {
+                            context.module_cache.progress.remove(&current_path);
+                            AnyResult::Error(e)
+                        }
                     }
                 }
-                Err(_) => AnyResult::<M>::Error(ParseError::CannotReadFile),
+                Err(_) => {
+                    context.module_cache.progress.remove(&current_path);
+                    AnyResult::<M>::Error(ParseError::CannotReadFile)
+                }
             }
         }
         _ => AnyResult::Error(ParseError::WrongRequireStatement),
@@ -197,10 +203,16 @@ fn root_state_parse<M: Manager + 'static, I: Io>(
                                     new_line: false,
                                 })
                             }
-                            Err(e) => JsonState::Error(e),
+                            Err(e) => {
+                                context.module_cache.progress.remove(&current_path);
+                                JsonState::Error(e)
+                            }
                         }
                     }
-                    Err(_) => JsonState::Error(ParseError::CannotReadFile),
+                    Err(_) => {
+                        context.module_cache.progress.remove(&current_path);
+                        JsonState::Error(ParseError::CannotReadFile)
+                    }
                 }
             }
             _ => panic!("JsonState::ParseRoot expected when root_state.parse returns import"),
@@ -231,15 +243,18 @@ fn json_state_push<M: Manager + 'static, I: Io>(
 pub fn parse<M: Manager + 'static, I: Io>(
     context: &mut Context<M, I>,
 ) -> Result<ParseResult<M::Dealloc>, ParseError> {
-    context.module_cache.progress.insert(context.path.clone());
+    let path = normalize(&context.path);
+    context.module_cache.progress.insert(path.clone());
     let read_result = context.io.read_to_string(context.path.as_str());
-    match read_result {
+    let result = match read_result {
         Ok(s) => {
             let tokens = tokenize(context.manager, s);
             parse_with_tokens(context, tokens.into_iter())
         }
         Err(_) => Err(ParseError::CannotReadFile),
-    }
+    };
+    context.module_cache.progress.remove(&path);
+    result
 }
 
 pub fn parse_with_tokens<M: Manager + 'static, I: Io>(
-- 
2.43.0


From 5877dc52b9165995485ecc184eac1462c488a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 19/36] fix: ignore `.` in a path

`./a.json` and `a.json` were loaded as two modules.
---
 nanvm-lib/src/parser/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 79f97e7..19f40e3 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -5,7 +5,7 @@ pub fn normalize(path: &str) -> String {
     let mut result_split: Vec<&str> = Vec::new();
     for &dir in path_split.iter() {
         match dir {
-            "" => {}
+            "" | "." => {}
             ".." => {
                 let last = result_split.last();
                 match last {
-- 
2.43.0


From b1787bc871b2b1f377326155e24aea8e5b977680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 20/36] fix: keep the root of an absolute path

An import in `/dir/a.d.cjs` was read from `dir/` in the current directory.
---
 nanvm-lib/src/parser/path.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nanvm-lib/src/parser/path.rs b/nanvm-lib/src/parser/path.rs
index 19f40e3..f094e3e 100644
--- a/nanvm-lib/src/parser/path.rs
+++ b/nanvm-lib/src/parser/path.rs
@@ -12,6 +12,7 @@ pub fn normalize(path: &str) -> String {
                     Some(x) if x != &".." => {
                         result_split.pop();
                     }
+                    None if path.starts_with('/') => {}
                     _ => {
                         result_split.push(dir);
                     }
@@ -22,10 +23,17 @@ pub fn normalize(path: &str) -> String {
             }
         }
     }
-    result_split.join("/")
+    let result = result_split.join("/");
+    match path.starts_with('/') {
+        true => "/".to_string() + &result,
+        false => result,
+    }
 }
 
 pub fn concat(a: &str, b: &str) -> String {
+    if a.is_empty() {
+        return normalize(b.trim_start_matches('/'));
+    }
     let mut concat = a.to_string();
     concat.push('/');
     concat.push_str(b);
@@ -35,6 +43,7 @@ pub fn concat(a: &str, b: &str) -> String {
 pub fn split(path: &str) -> (&str, &str) {
     match path.rsplit_once('/') {
         None => (default(), path),
+        Some(("", file)) => ("/", file),
         Some(t) => t,
     }
 }
-- 
2.43.0


From 41a7fde08803a652f19b203f997c9480d216061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 21/36] fix: an exponent without digits is an invalid number

`[1e]` and `[1e+]` were accepted but `1e` at the end of a file was not.
---
 nanvm-lib/src/tokenizer/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 97ade5c..62eb28a 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -108,9 +108,8 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             TokenizerState::ParseExpBegin(s) => {
                 get_next_state(manager, s, c, &maps.exp_begin, maps)
             }
-            TokenizerState::ParseExpSign(s) | TokenizerState::ParseExp(s) => {
-                get_next_state(manager, s, c, &maps.exp, maps)
-            }
+            TokenizerState::ParseExpSign(s) => get_next_state(manager, s, c, &maps.exp_sign, maps),
+            TokenizerState::ParseExp(s) => get_next_state(manager, s, c, &maps.exp, maps),
             TokenizerState::ParseBigInt(s) => get_next_state(manager, s, c, &maps.big_int, maps),
             TokenizerState::ParseNewLine => get_next_state(manager, (), c, &maps.new_line, maps),
             TokenizerState::ParseCommentStart => {
@@ -438,6 +437,7 @@ pub struct TransitionMaps<M: Manager> {
     frac_begin: TransitionMap<IntState<M::Dealloc>, M>,
     frac: TransitionMap<FloatState<M::Dealloc>, M>,
     exp_begin: TransitionMap<ExpState<M::Dealloc>, M>,
+    exp_sign: TransitionMap<ExpState<M::Dealloc>, M>,
     exp: TransitionMap<ExpState<M::Dealloc>, M>,
     big_int: TransitionMap<JsBigintMutRef<M::Dealloc>, M>,
     new_line: TransitionMap<(), M>,
@@ -461,6 +461,7 @@ pub fn create_transition_maps<M: Manager + 'static>() -> TransitionMaps<M> {
         frac_begin: create_frac_begin_transactions(),
         frac: create_frac_transactions(),
         exp_begin: create_exp_begin_transactions(),
+        exp_sign: create_exp_sign_transactions(),
         exp: create_exp_transactions(),
         big_int: create_big_int_transactions(),
         new_line: create_new_line_transactions(),
@@ -842,21 +843,23 @@ fn create_exp_begin_transactions<M: Manager + 'static>() -> TransitionMap<ExpSta
                         TokenizerState::ParseExpSign(s)
                     })
                 }),
-                create_range_map(terminal_for_number(), |manager, s, c, maps| {
-                    transfer_state(
-                        manager,
-                        [exp_state_into_token(manager, s)].cast(),
-                        TokenizerState::Initial,
-                        c,
-                        maps,
-                    )
-                }),
             ]
             .cast(),
         ),
     }
 }
 
+fn create_exp_sign_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
+    type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
+    TransitionMap {
+        def: (|manager, _, c, maps| tokenize_invalid_number(manager, c, maps)) as Func<M>,
+        rm: from_range(
+            '0'..='9',
+            (|_, s, c, _| (default(), TokenizerState::ParseExp(s.add_digit(c)))) as Func<M>,
+        ),
+    }
+}
+
 fn create_exp_transactions<M: Manager + 'static>() -> TransitionMap<ExpState<M::Dealloc>, M> {
     type Func<M> = TransitionFunc<M, ExpState<<M as Manager>::Dealloc>>;
     TransitionMap {
-- 
2.43.0


From 62a27d954c0d26a7025e531b8acc818e619c4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 22/36] fix: limit the exponent of a number literal

1e99999999999999999999 panicked and 1e999999999 didn't complete.
---
 nanvm-lib/src/tokenizer/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 62eb28a..f90ace3 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -317,7 +317,10 @@ pub struct ExpState<D: Dealloc> {
 
 impl<D: Dealloc> ExpState<D> {
     const fn add_digit(mut self, c: char) -> ExpState<D> {
-        self.e = self.e * 10 + digit_to_number(c) as i64;
+        self.e = self
+            .e
+            .saturating_mul(10)
+            .saturating_add(digit_to_number(c) as i64);
         self
     }
 }
@@ -326,11 +329,14 @@ fn exp_state_into_token<M: Manager>(
     manager: M,
     state: ExpState<M::Dealloc>,
 ) -> JsonToken<M::Dealloc> {
-    let exp = state.fe
-        + match state.es {
-            Sign::Positive => state.e,
-            Sign::Negative => -state.e,
-        };
+    let exp = state.fe.saturating_add(match state.es {
+        Sign::Positive => state.e,
+        Sign::Negative => -state.e,
+    });
+    // One digit of the significand is less than 10^20, so beyond the limits the number is an
+    // infinity or a zero anyway.
+    let limit = 400 + 20 * state.b.items().len() as i64;
+    let exp = exp.clamp(-limit, limit);
     JsonToken::Number(bigfloat_to_f64(BigFloat {
         manager,
         significand: state.b,
-- 
2.43.0


From 4edd7d35a6bd23a819586e688497e95936dd4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 23/36] fix: keep the sign of a negative zero

---
 nanvm-lib/src/big_numbers/big_float.rs |  5 ++++-
 nanvm-lib/src/tokenizer/mod.rs         | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index b6c965f..e37fdae 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -83,7 +83,10 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
 impl<M: Manager> BigFloat<10, M> {
     pub fn to_bin(self, precision: u8) -> BigFloat<2, M> {
         if is_zero(self.significand.deref()) {
-            return float_zero(self.manager);
+            return BigFloat {
+                sign: self.sign,
+                ..float_zero(self.manager)
+            };
         }
 
         if self.exp == 0 {
diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index f90ace3..8c97684 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -157,7 +157,7 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
             | TokenizerState::ParseMultilineCommentAsterix => {
                 [JsonToken::ErrorToken(ErrorType::CommentClosingExpected)].cast()
             }
-            TokenizerState::ParseZero(_) => [JsonToken::Number(default())].cast(),
+            TokenizerState::ParseZero(s) => [zero_into_number_token(s)].cast(),
             TokenizerState::ParseInt(s) => [int_state_into_number_token(manager, s)].cast(),
             TokenizerState::ParseFrac(s) => [float_state_into_token(manager, s)].cast(),
             TokenizerState::ParseExp(s) => [exp_state_into_token(manager, s)].cast(),
@@ -257,6 +257,13 @@ impl<D: Dealloc> IntState<D> {
     }
 }
 
+fn zero_into_number_token<D: Dealloc>(s: Sign) -> JsonToken<D> {
+    JsonToken::Number(match s {
+        Sign::Positive => 0.0,
+        Sign::Negative => -0.0,
+    })
+}
+
 fn int_state_into_number_token<M: Manager>(
     manager: M,
     state: IntState<M::Dealloc>,
@@ -701,10 +708,10 @@ fn create_zero_transactions<M: Manager + 'static>() -> TransitionMap<Sign, M> {
                         )
                     }) as Func<M>,
                 ),
-                create_range_map(terminal_for_number(), |manager, _, c, maps| {
+                create_range_map(terminal_for_number(), |manager, s, c, maps| {
                     transfer_state(
                         manager,
-                        [JsonToken::Number(default())].cast(),
+                        [zero_into_number_token(s)].cast(),
                         TokenizerState::Initial,
                         c,
                         maps,
-- 
2.43.0


From e7b4ea14fc2fe25f73304ebca16773c8ee134b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 24/36] fix: accept a surrogate pair of unicode escapes in a
 string

The serializer writes characters above U+FFFF as two escapes, for example
"\\uD83D\\uDE00", and the tokenizer rejected them with InvalidHex.
---
 nanvm-lib/src/tokenizer/mod.rs | 93 ++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/nanvm-lib/src/tokenizer/mod.rs b/nanvm-lib/src/tokenizer/mod.rs
index 8c97684..1f8465c 100644
--- a/nanvm-lib/src/tokenizer/mod.rs
+++ b/nanvm-lib/src/tokenizer/mod.rs
@@ -175,10 +175,16 @@ impl<D: Dealloc + 'static> TokenizerState<D> {
 
 pub struct ParseUnicodeCharState {
     s: String,
+    /// A high surrogate, `unicode` is the second part of a surrogate pair.
+    high: Option<u32>,
     unicode: u32,
     index: u8,
 }
 
+/// `\u` is expected before the second part of a surrogate pair.
+const SURROGATE_BACKSLASH: u8 = 4;
+const SURROGATE_U: u8 = 5;
+
 impl ParseUnicodeCharState {
     fn push<M: Manager>(
         mut self,
@@ -186,8 +192,20 @@ impl ParseUnicodeCharState {
     ) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
         let new_unicode = self.unicode | (i << ((3 - self.index) * 4));
         match self.index {
+            3 if self.high.is_none() && (0xD800..0xDC00).contains(&new_unicode) => {
+                self.high = Some(new_unicode);
+                self.unicode = 0;
+                self.index = SURROGATE_BACKSLASH;
+                (default(), TokenizerState::ParseUnicodeChar(self))
+            }
             3 => {
-                let c = char::from_u32(new_unicode);
+                let c = match (self.high, new_unicode) {
+                    (None, u) => char::from_u32(u),
+                    (Some(h), 0xDC00..=0xDFFF) => {
+                        char::from_u32(0x10000 + ((h - 0xD800) << 10) + (new_unicode - 0xDC00))
+                    }
+                    _ => None,
+                };
                 match c {
                     Some(c) => continue_string_state::<M>(self.s, c),
                     None => (
@@ -204,6 +222,48 @@ impl ParseUnicodeCharState {
             _ => unreachable!(),
         }
     }
+
+    fn invalid_hex<M: Manager + 'static>(
+        self,
+        manager: M,
+        c: char,
+        maps: &TransitionMaps<M>,
+    ) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+        transfer_state(
+            manager,
+            [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
+            TokenizerState::ParseString(self.s),
+            c,
+            maps,
+        )
+    }
+
+    fn push_hex<M: Manager + 'static>(
+        self,
+        manager: M,
+        c: char,
+        maps: &TransitionMaps<M>,
+    ) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+        match c.to_digit(16) {
+            Some(i) if self.index < SURROGATE_BACKSLASH => self.push::<M>(i),
+            _ => self.invalid_hex(manager, c, maps),
+        }
+    }
+
+    /// Accepts a character of `\u` between two parts of a surrogate pair.
+    fn push_prefix<M: Manager + 'static>(
+        mut self,
+        manager: M,
+        c: char,
+        maps: &TransitionMaps<M>,
+        (index, next): (u8, u8),
+    ) -> (Vec<JsonToken<M::Dealloc>>, TokenizerState<M::Dealloc>) {
+        if self.index != index {
+            return self.invalid_hex(manager, c, maps);
+        }
+        self.index = next;
+        (default(), TokenizerState::ParseUnicodeChar(self))
+    }
 }
 
 pub fn bigfloat_to_f64<M: Manager>(bf_10: BigFloat<10, M>) -> f64 {
@@ -625,6 +685,7 @@ fn create_escape_char_transactions<M: Manager + 'static>() -> TransitionMap<Stri
                         default(),
                         TokenizerState::ParseUnicodeChar(ParseUnicodeCharState {
                             s,
+                            high: None,
                             unicode: 0,
                             index: 0,
                         }),
@@ -640,29 +701,19 @@ fn create_unicode_char_transactions<M: Manager + 'static>(
 ) -> TransitionMap<ParseUnicodeCharState, M> {
     type Func<M> = TransitionFunc<M, ParseUnicodeCharState>;
     TransitionMap {
-        def: |manager, state, c, maps| {
-            transfer_state(
-                manager,
-                [JsonToken::ErrorToken(ErrorType::InvalidHex)].cast(),
-                TokenizerState::ParseString(state.s),
-                c,
-                maps,
-            )
-        },
+        def: |manager, state, c, maps| state.invalid_hex(manager, c, maps),
         rm: merge_list(
             [
-                from_range(
-                    '0'..='9',
-                    (|_, state, c, _| state.push::<M>(c as u32 - '0' as u32)) as Func<M>,
-                ),
-                from_range(
-                    'a'..='f',
-                    (|_, state, c, _| state.push::<M>(c as u32 - ('a' as u32 - 10))) as Func<M>,
-                ),
-                from_range(
-                    'A'..='F',
-                    (|_, state, c, _| state.push::<M>(c as u32 - ('A' as u32 - 10))) as Func<M>,
+                create_range_map(
+                    ['0'..='9', 'a'..='f', 'A'..='F'].cast(),
+                    (|manager, state, c, maps| state.push_hex(manager, c, maps)) as Func<M>,
                 ),
+                from_one('\\', |manager, state, c, maps| {
+                    state.push_prefix(manager, c, maps, (SURROGATE_BACKSLASH, SURROGATE_U))
+                }),
+                from_one('u', |manager, state, c, maps| {
+                    state.push_prefix(manager, c, maps, (SURROGATE_U, 0))
+                }),
             ]
             .cast(),
         ),
-- 
2.43.0


From 8a849012ecad73bf48c237be6a2802169b9e8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 25/36] fix: write an infinity as a number literal

`inf` is not a valid JSON number, 1e1000 is read as an infinity. There is no
such literal for NaN, it is an error.
---
 nanvm-lib/src/serializer/to_json.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index cf18014..ecb57c3 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -75,6 +75,10 @@ pub trait WriteJson: Write {
     fn write_json(&mut self, any: Any<impl Dealloc>) -> fmt::Result {
         match to_visitor(any) {
             // TODO: replace with proper JSON number serializer.
+            Visitor::Number(n) if n.is_nan() => Err(fmt::Error),
+            // A number that is too big is read as an infinity.
+            Visitor::Number(f64::INFINITY) => self.write_str("1e1000"),
+            Visitor::Number(f64::NEG_INFINITY) => self.write_str("-1e1000"),
             Visitor::Number(n) => self.write_str(n.to_string().as_str()),
             Visitor::Null => self.write_str("null"),
             Visitor::Bool(b) => self.write_str(if b { "true" } else { "false" }),
-- 
2.43.0


From 0cd4012bcaae97452a44483619b029c6962c86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 26/36] fix: serialize bigints

Both serializers panicked with todo!(). A bigint is written to a module as a
literal, for example `-12n`. It is an error in JSON.
---
 nanvm-lib/src/serializer/to_djs.rs  | 40 ++++++++++++++++++++++++++++-
 nanvm-lib/src/serializer/to_json.rs |  3 ++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4df0d51..2afa118 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -1,5 +1,11 @@
 use crate::{
-    js::{any::Any, js_array::JsArrayRef, js_object::JsObjectRef, type_::Type},
+    js::{
+        any::Any,
+        js_array::JsArrayRef,
+        js_bigint::{JsBigint, JsBigintRef, Sign},
+        js_object::JsObjectRef,
+        type_::Type,
+    },
     mem::manager::Dealloc,
 };
 
@@ -157,10 +163,42 @@ fn write_with_const_refs<D: Dealloc>(
                 )
             }
         }
+        Type::Bigint => write_bigint(write_json, &any.try_move::<JsBigintRef<D>>().unwrap()),
         _ => write_json.write_json(any),
     }
 }
 
+/// Writes a bigint as a decimal literal.
+fn write_bigint(write_json: &mut (impl WriteJson + ?Sized), bigint: &JsBigint) -> fmt::Result {
+    const CHUNK: u64 = 10_000_000_000_000_000_000;
+    let mut items = bigint.items().to_vec();
+    let mut chunks = Vec::new();
+    while let Some(&high) = items.last() {
+        if high == 0 {
+            items.pop();
+            continue;
+        }
+        let mut rem = 0;
+        for item in items.iter_mut().rev() {
+            let value = ((rem as u128) << 64) | *item as u128;
+            *item = (value / CHUNK as u128) as u64;
+            rem = (value % CHUNK as u128) as u64;
+        }
+        chunks.push(rem);
+    }
+    if bigint.sign() == Sign::Negative {
+        write_json.write_char('-')?;
+    }
+    match chunks.pop() {
+        Some(first) => write_json.write_str(first.to_string().as_str())?,
+        None => write_json.write_char('0')?,
+    }
+    for chunk in chunks.iter().rev() {
+        write_json.write_str(format!("{chunk:019}").as_str())?;
+    }
+    write_json.write_char('n')
+}
+
 pub trait WriteDjs: WriteJson {
     /// Writes a DAG referred by `any` with const definitions for objects, arrays that are referred
     /// multiple times.
diff --git a/nanvm-lib/src/serializer/to_json.rs b/nanvm-lib/src/serializer/to_json.rs
index ecb57c3..7e84989 100644
--- a/nanvm-lib/src/serializer/to_json.rs
+++ b/nanvm-lib/src/serializer/to_json.rs
@@ -89,7 +89,8 @@ pub trait WriteJson: Write {
                 w.write_json(v.clone())
             }),
             Visitor::Array(a) => self.write_list('[', ']', a, |w, i| w.write_json(i.clone())),
-            Visitor::Bigint(_) => todo!(),
+            // JSON has no bigints.
+            Visitor::Bigint(_) => Err(fmt::Error),
         }
     }
 }
-- 
2.43.0


From 3518660268b33e01f298c8d0be2d60181944b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 27/36] fix: visit a shared value once when consts are written

The time was exponential for nested shared values.
---
 nanvm-lib/src/serializer/to_djs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 2afa118..33c1b85 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -76,6 +76,9 @@ fn write_compound_const<D: Dealloc>(
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
+    if const_refs.contains_key(any) {
+        return fmt::Result::Ok(());
+    }
     any.for_each(|_k, v| write_consts_and_any(write_json, v, to_be_consts, const_refs))?;
     if to_be_consts.remove(any).is_some() {
         let id = const_refs.len();
-- 
2.43.0


From d959ef715c502ea5930cab2e8a5d96a5989d8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 28/36] fix: exit with an error code when a conversion fails

---
 nanvm/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nanvm/src/main.rs b/nanvm/src/main.rs
index 3662f75..e9573ad 100644
--- a/nanvm/src/main.rs
+++ b/nanvm/src/main.rs
@@ -1,6 +1,6 @@
 use io_impl::RealIo;
 use nanvm_lib::app::run;
 
-fn main() {
-    let _ = run(&RealIo::default());
+fn main() -> std::io::Result<()> {
+    run(&RealIo::default())
 }
-- 
2.43.0


From d10e38f95a06d093e8d1a001862c384d645fb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 29/36] fix: report missing arguments as an error

---
 nanvm-lib/src/app/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/app/mod.rs b/nanvm-lib/src/app/mod.rs
index b574a57..3ec8319 100644
--- a/nanvm-lib/src/app/mod.rs
+++ b/nanvm-lib/src/app/mod.rs
@@ -13,9 +13,10 @@ use crate::{
 
 pub fn run(io: &impl Io) -> io::Result<()> {
     let mut a = io.args();
-    a.next().unwrap();
-    let input = a.next().unwrap();
-    let output = a.next().unwrap();
+    a.next();
+    let missing = || Error::other("input and output files are expected");
+    let input = a.next().ok_or_else(missing)?;
+    let output = a.next().ok_or_else(missing)?;
 
     let mc = &mut default();
     let mut context = Context::new(GLOBAL, io, input, mc);
-- 
2.43.0


From abe5fa09605328e08aa30fd93dd5fdd049bf5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 30/36] fix: a range of characters can start at U+0000 or
 U+E000

---
 nanvm-lib/src/range_map.rs | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/nanvm-lib/src/range_map.rs b/nanvm-lib/src/range_map.rs
index 7732c09..c445ce6 100644
--- a/nanvm-lib/src/range_map.rs
+++ b/nanvm-lib/src/range_map.rs
@@ -163,44 +163,30 @@ where
 }
 
 pub fn from_range<T>(range: RangeInclusive<char>, value: T) -> RangeMap<char, State<T>> {
+    let end = Entry {
+        key: *range.end(),
+        value: State { value: Some(value) },
+    };
     RangeMap {
-        list: [
-            Entry {
-                key: char::from_u32(*range.start() as u32 - 1).unwrap_or(*range.start()),
-                value: State { value: None },
-            },
-            Entry {
-                key: *range.end(),
-                value: State { value: Some(value) },
-            },
-        ]
-        .cast(),
-    }
-}
-
-pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
-    RangeMap {
-        list: match char::from_u32(c as u32 - 1) {
+        // the character before the range, if any
+        list: match (char::MIN..*range.start()).next_back() {
             Some(p) => [
                 Entry {
                     key: p,
                     value: State { value: None },
                 },
-                Entry {
-                    key: c,
-                    value: State { value: Some(value) },
-                },
+                end,
             ]
             .cast(),
-            None => [Entry {
-                key: c,
-                value: State { value: Some(value) },
-            }]
-            .cast(),
+            None => [end].cast(),
         },
     }
 }
 
+pub fn from_one<T>(c: char, value: T) -> RangeMap<char, State<T>> {
+    from_range(c..=c, value)
+}
+
 #[cfg(test)]
 mod test {
 
-- 
2.43.0


From 2e090011f501c19de4801210ab1021cc1177285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 31/36] fix: floats with exponents near the ends of i64
 overflow to infinity or zero

---
 nanvm-lib/src/big_numbers/big_float.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_float.rs b/nanvm-lib/src/big_numbers/big_float.rs
index e37fdae..389468c 100644
--- a/nanvm-lib/src/big_numbers/big_float.rs
+++ b/nanvm-lib/src/big_numbers/big_float.rs
@@ -52,7 +52,7 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
                 _ => {}
             }
             self.significand = shl_on_u64(self.manager, self.significand.deref(), 1);
-            self.exp -= 1;
+            self.exp = self.exp.saturating_sub(1);
         }
     }
 
@@ -75,7 +75,7 @@ impl<const BASE: u32, M: Manager> BigFloat<BASE, M> {
                 self.non_zero_reminder = true;
             }
             self.significand = shr_on_u64(self.manager, self.significand.deref(), 1);
-            self.exp += 1;
+            self.exp = self.exp.saturating_add(1);
         }
     }
 }
@@ -196,7 +196,7 @@ impl<M: Manager> BigFloat<2, M> {
         value.increase_significand(PRECISION + 1);
         value.decrease_significand(PRECISION + 2);
 
-        let mut f64_exp = value.exp + PRECISION as i64 + 1;
+        let mut f64_exp = value.exp.saturating_add(PRECISION as i64 + 1);
         match f64_exp {
             -1022..=1023 => {
                 let mut frac = value.get_frac_round();
-- 
2.43.0


From e85587252dc0bcc7feec9b3c9aa74379fb73f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 32/36] fix: remove an unused import

---
 nanvm-lib/src/big_numbers/big_int.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nanvm-lib/src/big_numbers/big_int.rs b/nanvm-lib/src/big_numbers/big_int.rs
index 81d89dd..be7196c 100644
--- a/nanvm-lib/src/big_numbers/big_int.rs
+++ b/nanvm-lib/src/big_numbers/big_int.rs
@@ -3,8 +3,6 @@ use std::{
     ops::{Add, Div, Mul, Neg, Sub},
 };
 
-use crate::common::cast::Cast;
-
 use super::big_uint::BigUint;
 
 #[derive(Debug, PartialEq, Clone, Eq, Default)]
-- 
2.43.0


From 46fe3e31debe7cbc6fc410f019cce2706c7d5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 33/36] fix: writing constants takes time proportional to their
 number

---
 nanvm-lib/src/serializer/to_djs.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 33c1b85..4ead44e 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -111,20 +111,16 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
-/// Peeks one value from a hash map. This helper resolves a borrowing issue in write_consts - that
-/// function needs to iterate through a hash map while mutating that hash map.
-fn peek<D: Dealloc>(hash_map: &HashMap<Any<D>, Seen>) -> Option<Any<D>> {
-    Some(hash_map.iter().next()?.0.clone())
-}
-
 /// Writes const definitions for objects, arrays in the right order (with no forward references).
 fn write_consts<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
     to_be_consts: &mut HashMap<Any<D>, Seen>,
     const_refs: &mut HashMap<Any<D>, usize>,
 ) -> fmt::Result {
-    while let Some(any) = peek(to_be_consts) {
-        write_consts_and_any(write_json, &any, to_be_consts, const_refs)?;
+    // The hash map is mutated while const definitions are written, so iterate through a copy of keys.
+    let anys = to_be_consts.keys().cloned().collect::<Vec<_>>();
+    for any in anys.iter() {
+        write_consts_and_any(write_json, any, to_be_consts, const_refs)?;
     }
     fmt::Result::Ok(())
 }
-- 
2.43.0


From aa27be66a873dc0bc404961c8f80396d04faf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 34/36] fix: abort when the function given to modify panics

The value was dropped by the unwinding function and again by its owner.
---
 nanvm-lib/src/common/ref_mut.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/nanvm-lib/src/common/ref_mut.rs b/nanvm-lib/src/common/ref_mut.rs
index 78699ba..bca5f2a 100644
--- a/nanvm-lib/src/common/ref_mut.rs
+++ b/nanvm-lib/src/common/ref_mut.rs
@@ -1,15 +1,31 @@
+use core::mem::forget;
+use std::process::abort;
+
+/// Ends the process if it is dropped.
+struct AbortOnDrop;
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        abort();
+    }
+}
+
 pub trait RefMut {
     // a better name is `as_mut_ptr` but it's already used by `Slice`.
     unsafe fn to_mut_ptr(&mut self) -> *mut Self {
         self as _
     }
+    /// Replace the value by `f` of it. The process is aborted if `f` panics, because there is no
+    /// value to put back.
     fn modify(&mut self, f: impl FnOnce(Self) -> Self)
     where
         Self: Sized,
     {
         unsafe {
             let p = self.to_mut_ptr();
+            let guard = AbortOnDrop;
             p.write(f(p.read()));
+            forget(guard);
         };
     }
 }
-- 
2.43.0


From a3df8d5ee97ae5eff7ba1ad755b9f97ba27d883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 35/36] fix: refuse a block whose size cannot be computed or
 allocated

The size wrapped around without overflow checks, and memory that could not be
allocated was written to.
---
 nanvm-lib/src/mem/field_layout.rs       | 8 +++++++-
 nanvm-lib/src/mem/flexible_array/mod.rs | 8 +++++++-
 nanvm-lib/src/mem/global.rs             | 8 ++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/nanvm-lib/src/mem/field_layout.rs b/nanvm-lib/src/mem/field_layout.rs
index 91eb098..7c50f10 100644
--- a/nanvm-lib/src/mem/field_layout.rs
+++ b/nanvm-lib/src/mem/field_layout.rs
@@ -42,7 +42,13 @@ impl<T, A> FieldLayout<T, A> {
     }
     #[inline(always)]
     pub const fn layout(&self, a_size: usize) -> Layout {
-        unsafe { Layout::from_size_align_unchecked(self.size + a_size, self.align) }
+        match self.size.checked_add(a_size) {
+            Some(size) => match Layout::from_size_align(size, self.align) {
+                Ok(layout) => layout,
+                Err(_) => panic!("capacity overflow"),
+            },
+            None => panic!("capacity overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/flexible_array/mod.rs b/nanvm-lib/src/mem/flexible_array/mod.rs
index 8468d4c..bf658fb 100644
--- a/nanvm-lib/src/mem/flexible_array/mod.rs
+++ b/nanvm-lib/src/mem/flexible_array/mod.rs
@@ -40,7 +40,13 @@ impl<I, T: FlexibleArrayHeader> FlexibleArray<I, T> {
     }
     #[inline(always)]
     pub const fn flexible_size(len: usize) -> usize {
-        Self::FLEXIBLE_HEADER_LAYOUT.size + len * size_of::<I>()
+        match len.checked_mul(size_of::<I>()) {
+            Some(size) => match size.checked_add(Self::FLEXIBLE_HEADER_LAYOUT.size) {
+                Some(size) => size,
+                None => panic!("capacity overflow"),
+            },
+            None => panic!("capacity overflow"),
+        }
     }
 }
 
diff --git a/nanvm-lib/src/mem/global.rs b/nanvm-lib/src/mem/global.rs
index 289a234..ad31212 100644
--- a/nanvm-lib/src/mem/global.rs
+++ b/nanvm-lib/src/mem/global.rs
@@ -1,5 +1,5 @@
 use core::{alloc::Layout, cell::Cell};
-use std::alloc::{alloc, dealloc};
+use std::alloc::{alloc, dealloc, handle_alloc_error};
 
 use super::manager::{Dealloc, Manager};
 
@@ -20,7 +20,11 @@ impl Manager for Global {
     type Dealloc = Global;
     #[inline(always)]
     unsafe fn alloc(self, layout: Layout) -> *mut u8 {
-        alloc(layout)
+        let p = alloc(layout);
+        if p.is_null() {
+            handle_alloc_error(layout);
+        }
+        p
     }
 }
 
-- 
2.43.0


From d2e28947c18eef8a99593d4e6f30b217a191efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 36/36] fix: write constants in the order of the value

---
 nanvm-lib/src/serializer/to_djs.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/nanvm-lib/src/serializer/to_djs.rs b/nanvm-lib/src/serializer/to_djs.rs
index 4ead44e..d4437a4 100644
--- a/nanvm-lib/src/serializer/to_djs.rs
+++ b/nanvm-lib/src/serializer/to_djs.rs
@@ -111,20 +111,6 @@ fn write_consts_and_any<D: Dealloc>(
     fmt::Result::Ok(())
 }
 
-/// Writes const definitions for objects, arrays in the right order (with no forward references).
-fn write_consts<D: Dealloc>(
-    write_json: &mut (impl WriteJson + ?Sized),
-    to_be_consts: &mut HashMap<Any<D>, Seen>,
-    const_refs: &mut HashMap<Any<D>, usize>,
-) -> fmt::Result {
-    // The hash map is mutated while const definitions are written, so iterate through a copy of keys.
-    let anys = to_be_consts.keys().cloned().collect::<Vec<_>>();
-    for any in anys.iter() {
-        write_consts_and_any(write_json, any, to_be_consts, const_refs)?;
-    }
-    fmt::Result::Ok(())
-}
-
 /// Writes `any` using const references.
 fn write_with_const_refs<D: Dealloc>(
     write_json: &mut (impl WriteJson + ?Sized),
@@ -210,7 +196,9 @@ pub trait WriteDjs: WriteJson {
         const_tracker
             .visited
             .retain(|_, seen| *seen == Seen::Repeatedly);
-        write_consts(self, &mut const_tracker.visited, &mut const_refs)?;
+        // Consts are written in the order of the value: the order of the hash map is a different one
+        // each time.
+        write_consts_and_any(self, &any, &mut const_tracker.visited, &mut const_refs)?;
         if common_js {
             self.write_str("module.exports=")?;
         } else {
-- 
2.43.0

