From 2ef60d11991fd2a1e26af804fbb745d27562333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 01/10] fix: rotate by more than 256 bits

The native rotation intrinsics computed `256 - b` before masking the
amount, which panics with debug assertions for amounts above 256.
---
 src/intrinsics/native/rot.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..ab4f269 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,12 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    let b = b & 0xff;
+    r.write((a << b) | (a >> ((256 - b) & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    let b = b & 0xff;
+    r.write((a >> b) | (a << ((256 - b) & 0xff)));
 }
-- 
2.43.0


From 025cc2ac561b4b4f3af3a4c89ad2ef89168c3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 02/10] fix: mask the amount of overflowing shifts without
 debug assertions

The native shift intrinsics require an amount below 256, but the shift
operators passed any amount on when debug assertions are disabled. Wrap
the amount like the `wrapping_` methods and the primitive operators do.
---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From c662838aec9b4863080eb63064b668731bddb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 03/10] fix: Euclidean division of a negative value by
 `I256::MIN`

`MIN.unsigned_abs()` does not fit an `I256`, so the subtraction adjusting
the remainder panicked with debug assertions.
---
 src/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..8a40056 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -538,8 +538,8 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
-            // cannot overflow
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
+            // `abs_divisor` may be `MIN.unsigned_abs()`, but the result cannot overflow
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
             debug_assert!(false);
-- 
2.43.0


From 29edbd4531ccf9a13f8a207f8692d7ddc80648e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 04/10] fix: carry between the words when evaluating literals

`int!` and `uint!` rejected some literals that are in range because the
carry out of the low word was taken for an overflow.
---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From 87e09ddc5869d4b2ea4e23e5ea63352bd9f1d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 05/10] fix: panic when dividing `I256::MIN` by -1

The division and remainder operators silently returned `MIN` and 0, and
the assignment operators did not check their divisor at all in builds
without debug assertions. Panic in both cases, as documented for
`div_euclid` and as the primitive integers do.
---
 src/macros/ops.rs | 65 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2c8b718..cee5717 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -30,10 +30,11 @@ macro_rules! impl_ops {
             for $int | $prim
 
             impl Div {
-                / div => $div3; "divide by zero"
+                / div => $div3; "divide by zero", "divide with overflow"
             }
             impl Rem {
-                % rem => $rem3; "calculate the remainder with a divisor of zero"
+                % rem => $rem3; "calculate the remainder with a divisor of zero",
+                    "calculate the remainder with overflow"
             }
         }
 
@@ -77,20 +78,26 @@ macro_rules! impl_ops {
             impl AddAssign {
                 += add_assign => $add2, +;
             }
-            impl DivAssign {
-                /= div_assign => $div2, /;
-            }
             impl MulAssign {
                 *= mul_assign => $mul2, *;
             }
-            impl RemAssign {
-                %= rem_assign => $rem2, %;
-            }
             impl SubAssign {
                 -= sub_assign => $sub2, -;
             }
         }
 
+        __impl_ops_divmod_assign! {
+            for $int | $prim
+
+            impl DivAssign {
+                /= div_assign => $div2; "divide by zero", "divide with overflow"
+            }
+            impl RemAssign {
+                %= rem_assign => $rem2; "calculate the remainder with a divisor of zero",
+                    "calculate the remainder with overflow"
+            }
+        }
+
         __impl_ops_shift_assign! {
             for $int
 
@@ -219,12 +226,25 @@ macro_rules! __impl_ops_binop_ref {
     )*}
 }
 
+macro_rules! __check_division {
+    ($int:ident, $lhs:expr, $rhs:expr; $zero:expr, $overflow:expr) => {
+        if *$rhs == 0 {
+            panic!(concat!("attempt to ", $zero));
+        }
+        // The quotient does not fit for `MIN / -1`. This never happens for
+        // unsigned integers, where `MIN` is zero.
+        if $int::MIN != 0 && *$lhs == $int::MIN && !*$rhs == 0 {
+            panic!(concat!("attempt to ", $overflow));
+        }
+    };
+}
+
 macro_rules! __impl_ops_divmod {
     (
         for $int:ident | $prim:ident
         $(
             impl $op:ident {
-                $x:tt $method:ident => $op3:path; $msg:expr
+                $x:tt $method:ident => $op3:path; $zero:expr, $overflow:expr
             }
         )*
     ) => {$(
@@ -233,9 +253,7 @@ macro_rules! __impl_ops_divmod {
 
             #[inline]
             fn $method(self, rhs: Self) -> Self::Output {
-                if *rhs == 0 {
-                    panic!(concat!("attempt to ", $msg));
-                }
+                __check_division!($int, self, rhs; $zero, $overflow);
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
                 $op3(&mut result, self, rhs);
@@ -412,6 +430,29 @@ macro_rules! __impl_ops_binop_assign {
     )*};
 }
 
+macro_rules! __impl_ops_divmod_assign {
+    (
+        for $int:ident | $prim:ident
+        $(
+            impl $op:ident {
+                $x:tt $method:ident => $op2:path; $zero:expr, $overflow:expr
+            }
+        )*
+    ) => {$(
+        impl ::core::ops::$op<&'_ $int> for $int {
+            #[inline]
+            fn $method(&mut self, rhs: &'_ $int) {
+                __check_division!($int, &*self, rhs; $zero, $overflow);
+                $op2(self, rhs);
+            }
+        }
+
+        __impl_ops_binop_assign_extra_variants! {
+            impl $op for $int | $prim { $method = $x }
+        }
+    )*};
+}
+
 macro_rules! __impl_ops_binop_assign_extra_variants {
     (
         impl $op:ident for $int:ident | $prim:ident { $method:ident = $x:tt }
-- 
2.43.0


From fc2bf31ff1af2553cac388e35d5642ee07e0e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 06/10] fix: saturate when casting an infinite `f32`

The exponent of an infinite `f32` is small enough for a 256-bit integer,
so infinities were cast to 2**128.
---
 src/int/convert.rs  | 2 +-
 src/uint/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..4b7e9d8 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -141,7 +141,7 @@ macro_rules! impl_as_i256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
-                    } else if exponent < 255 {
+                    } else if exponent < 255 && abs.is_finite() {
                         (I256::from(mantissa) << (exponent - M)) * sign
                     } else if sign > 0 {
                         I256::MAX
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..b543081 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -142,7 +142,7 @@ macro_rules! impl_as_u256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         U256::from(mantissa >> (M - exponent))
-                    } else if exponent < 256 {
+                    } else if exponent < 256 && self.is_finite() {
                         U256::from(mantissa) << (exponent - M)
                     } else {
                         U256::MAX
-- 
2.43.0


From b67d94439a8c823920f44c2459adaf0828f5534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 07/10] fix: round only once when casting to floating point
 numbers

`U256::as_f64` rounded both words before adding them, and `I256::as_f32`
rounded to an `f64` first, so the results were not always the nearest
floating point number.
---
 src/int.rs  |  3 ++-
 src/uint.rs | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 8a40056..25773d8 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,7 +263,8 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let sign = self.signum128() as f32;
+        self.unsigned_abs().as_f32() * sign
     }
 
     /// Cast to a primitive `f64`.
diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..f84b4c0 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -269,11 +269,20 @@ impl U256 {
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        // NOTE: Binary representation of 2**128. This is used because `powi` is
-        // neither `const` nor `no_std`.
-        const HI: u64 = 0x47f0000000000000;
         let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        if hi == 0 {
+            return lo as f64;
+        }
+
+        // Round the 128 most significant bits, where the last one also stands
+        // for all of the bits that are shifted out, so that the conversion is
+        // only rounded once.
+        let exp = 128 - hi.leading_zeros();
+        let bits = *(self >> exp).low() | ((self << (256 - exp)) != 0) as u128;
+
+        // NOTE: Binary representation of 2**exp. This is used because `powi` is
+        // neither `const` nor `no_std`.
+        (bits as f64) * f64::from_bits((1023 + exp as u64) << 52)
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From eff608682123ef8f77842ba1c9a9ef58be2d21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 08/10] fix: sign of compressed bytes

Compressed bytes of an `I256` left out the sign bit of positive values
(128 was encoded like -128), and big endian bytes were extended with the
sign of the least significant byte.
---
 src/serde.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..f3739aa 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -473,7 +473,10 @@ pub mod compressed_bytes {
         fn leading_bits(&self) -> u32 {
             match self.is_negative() {
                 true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+                // Zero is encoded without any bytes. Other values need a bit
+                // for the sign.
+                false if *self == 0 => 256,
+                false => self.leading_zeros() - 1,
             }
         }
 
@@ -493,7 +496,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -538,7 +541,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -594,7 +597,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -602,7 +605,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From 684f1f7898cbacddc09957c1ce0692aa693c30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 09/10] fix: reject negative numbers when deserializing a
 permissive `U256`

Negative integers and floating point numbers wrapped around instead of
being rejected like negative strings are.
---
 src/serde.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index f3739aa..bdc8f5f 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,28 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            Ok(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            U256::try_from(value).map_err(|_| {
+                de::Error::custom("invalid conversion from negative number to unsigned integer")
+            })
         }
     }
 
@@ -237,28 +247,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +309,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            T::cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From 7e5dd7398978c8484e6043c9cadef58f84f0581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:51 +0000
Subject: [PATCH 10/10] fix: reject literals without any digits

---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 3c25414..3e3696a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -179,6 +179,7 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
     };
 
     let mut value = U256::ZERO;
+    let mut has_digits = false;
 
     while i < bytes.len() {
         let byte = bytes[i];
@@ -198,7 +199,9 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
             _ => panic!("invalid digit"),
         };
         value = add(mul(value, radix), next);
+        has_digits = true;
     }
+    assert!(has_digits, "missing number");
 
     value
 }
-- 
2.43.0

