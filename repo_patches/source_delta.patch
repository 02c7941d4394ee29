From 5a0ff785884ac80c4220690a348eaa473ee3c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 1/7] fix: Signed::abs_sub for IBig returns zero when the
 difference is negative

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..3d7c0d9 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if *self <= *other {
+            IBig::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0


From ad948390cde23ba28263d84433bda878e48fbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 2/7] fix: clear_bit beyond the word of a one-word number
 leaves the number unchanged

---
 src/bits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f6d0bb4 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -102,6 +102,8 @@ impl UBig {
             Small(word) => {
                 if n < WORD_BITS_USIZE {
                     *self = UBig::from_word(word & !(1 << n))
+                } else {
+                    *self = UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From 26b63cc79ad0d67a91be385e59f9f8bacf6241d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 3/7] fix: parsing a very long invalid string returns
 InvalidDigit instead of panicking

---
 src/parse/non_power_two.rs | 5 +++++
 src/parse/power_two.rs     | 5 +++++
 src/radix.rs               | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/src/parse/non_power_two.rs b/src/parse/non_power_two.rs
index 3e37ef4..e9efbad 100644
--- a/src/parse/non_power_two.rs
+++ b/src/parse/non_power_two.rs
@@ -73,6 +73,11 @@ fn parse_large(bytes: &[u8], radix: Digit) -> Result<UBig, ParseError> {
     let chunk_bytes = CHUNK_LEN * radix_info.digits_per_word;
     assert!(bytes.len() > chunk_bytes);
 
+    // An invalid string is an error even if it is longer than any number could be.
+    if !radix::all_digits_valid(bytes, radix) {
+        return Err(ParseError::InvalidDigit);
+    }
+
     // Calculate radix^(CHUNK_LEN<<i).
     let mut radix_powers = vec![UBig::from_word(radix_info.range_per_word).pow(CHUNK_LEN)];
 
diff --git a/src/parse/power_two.rs b/src/parse/power_two.rs
index 1b3b9f1..c881161 100644
--- a/src/parse/power_two.rs
+++ b/src/parse/power_two.rs
@@ -46,6 +46,11 @@ fn parse_word(src: &str, radix: Digit) -> Result<Word, ParseError> {
 fn parse_large(src: &str, radix: Digit) -> Result<UBig, ParseError> {
     debug_assert!(radix::is_radix_valid(radix) && radix.is_power_of_two());
 
+    // An invalid string is an error even if it is longer than any number could be.
+    if !radix::all_digits_valid(src.as_bytes(), radix) {
+        return Err(ParseError::InvalidDigit);
+    }
+
     let log_radix = radix.trailing_zeros();
     #[allow(clippy::redundant_closure)]
     let num_bits = src
diff --git a/src/radix.rs b/src/radix.rs
index d209a30..7c541f1 100644
--- a/src/radix.rs
+++ b/src/radix.rs
@@ -53,6 +53,13 @@ pub(crate) fn digit_from_utf8_byte(byte: u8, radix: Digit) -> Option<Digit> {
     }
 }
 
+/// Are all bytes ASCII digits of a given radix?
+pub(crate) fn all_digits_valid(bytes: &[u8], radix: Digit) -> bool {
+    bytes
+        .iter()
+        .all(|byte| digit_from_utf8_byte(*byte, radix).is_some())
+}
+
 /// Maximum number of digits that a `Word` can ever have for any non-power-of-2 radix.
 pub(crate) const MAX_WORD_DIGITS_NON_POW_2: usize = RadixInfo::for_radix(3).digits_per_word + 1;
 
-- 
2.43.0


From c4c7c396d14127c8ce7e28f4fc3745d57430b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 4/7] fix: deserializing a malformed, truncated or oversized
 number is an error, not a panic

---
 src/serde.rs | 59 ++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..fef68e3 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -2,7 +2,7 @@ use crate::{arch::word::Word, buffer::Buffer, ibig::IBig, primitive::WORD_BITS_U
 use alloc::vec::Vec;
 use core::fmt::{self, Formatter};
 use serde::{
-    de::{Deserialize, Deserializer, SeqAccess, Visitor},
+    de::{Deserialize, Deserializer, Error, SeqAccess, Visitor},
     ser::{Serialize, SerializeSeq, Serializer},
 };
 use static_assertions::const_assert;
@@ -42,33 +42,30 @@ impl<'de> Visitor<'de> for UBigVisitor {
     }
 
     fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<UBig, A::Error> {
-        match seq.size_hint() {
-            Some(0) => {
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from_word(0))
-            }
-            Some(1) => {
-                let word_64: u64 = seq.next_element()?.unwrap();
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(UBig::from(word_64))
-            }
-            Some(num_words_64) => {
-                let mut buffer = Buffer::allocate(len_64_to_max_len(num_words_64));
-                for _ in 0..num_words_64 {
-                    let word_64: u64 = seq.next_element()?.unwrap();
-                    push_word_64(&mut buffer, word_64);
+        // The size hint may come straight from untrusted input: only use it for small numbers.
+        let mut words_64: Vec<u64> = Vec::with_capacity(seq.size_hint().unwrap_or(0).min(16));
+        while let Some(word_64) = seq.next_element()? {
+            words_64.push(word_64);
+        }
+        while let Some(0) = words_64.last() {
+            words_64.pop();
+        }
+        match words_64[..] {
+            [] => Ok(UBig::from_word(0)),
+            [word_64] => Ok(UBig::from(word_64)),
+            _ => {
+                // Make sure we always have enough space for leading zero Words.
+                const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= WORDS_PER_U64 - 1);
+                if words_64.len() > (UBig::MAX_LEN - 1) / WORDS_PER_U64 + 1 {
+                    return Err(A::Error::invalid_length(words_64.len(), &self));
                 }
-                assert!(seq.next_element::<u64>()?.is_none());
-                Ok(buffer.into())
-            }
-            None => {
-                let mut words_64 = Vec::new();
-                while let Some(word_64) = seq.next_element()? {
-                    words_64.push(word_64);
+                let mut buffer = Buffer::allocate(words_64.len() * WORDS_PER_U64);
+                for word_64 in &words_64 {
+                    push_word_64(&mut buffer, *word_64);
                 }
-                let mut buffer = Buffer::allocate(len_64_to_max_len(words_64.len()));
-                for word_64 in words_64 {
-                    push_word_64(&mut buffer, word_64);
+                buffer.pop_leading_zeros();
+                if buffer.len() > UBig::MAX_LEN {
+                    return Err(A::Error::invalid_length(words_64.len(), &self));
                 }
                 Ok(buffer.into())
             }
@@ -82,16 +79,6 @@ fn push_word_64(buffer: &mut Buffer, word_64: u64) {
     }
 }
 
-#[allow(clippy::absurd_extreme_comparisons)]
-fn len_64_to_max_len(len_64: usize) -> usize {
-    // Make sure we always have enough space for leading zero Words.
-    const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= WORDS_PER_U64 - 1);
-    #[allow(clippy::redundant_closure)]
-    len_64
-        .checked_mul(WORDS_PER_U64)
-        .unwrap_or_else(|| UBig::panic_number_too_large())
-}
-
 impl Serialize for IBig {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         (self.sign(), self.magnitude()).serialize(serializer)
-- 
2.43.0


From 85ea2551986a0e6bda06fe05bf3a759b20bb1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:39 +0000
Subject: [PATCH 5/7] fix: zero padding of byte strings does not count towards
 the size limit

---
 src/convert.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/convert.rs b/src/convert.rs
index 41c986b..90f18e9 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -48,6 +48,12 @@ impl UBig {
 
     fn from_le_bytes_large(bytes: &[u8]) -> UBig {
         debug_assert!(bytes.len() > WORD_BYTES);
+        // Padding must not count towards the size limit.
+        let padding = bytes.iter().rev().take_while(|byte| **byte == 0).count();
+        let bytes = &bytes[..bytes.len() - padding];
+        if bytes.is_empty() {
+            return UBig::from_word(0);
+        }
         let mut buffer = Buffer::allocate((bytes.len() - 1) / WORD_BYTES + 1);
         let mut chunks = bytes.chunks_exact(WORD_BYTES);
         for chunk in &mut chunks {
@@ -79,6 +85,12 @@ impl UBig {
 
     fn from_be_bytes_large(bytes: &[u8]) -> UBig {
         debug_assert!(bytes.len() > WORD_BYTES);
+        // Padding must not count towards the size limit.
+        let padding = bytes.iter().take_while(|byte| **byte == 0).count();
+        let bytes = &bytes[padding..];
+        if bytes.is_empty() {
+            return UBig::from_word(0);
+        }
         let mut buffer = Buffer::allocate((bytes.len() - 1) / WORD_BYTES + 1);
         let mut chunks = bytes.rchunks_exact(WORD_BYTES);
         for chunk in &mut chunks {
-- 
2.43.0


From c73545f03009d02e14e35371523b3306f25ae000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 6/7] fix: extended_gcd of numbers near the size limit does not
 overflow

---
 src/gcd.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/gcd.rs b/src/gcd.rs
index 7b097d0..59e5e44 100644
--- a/src/gcd.rs
+++ b/src/gcd.rs
@@ -132,19 +132,27 @@ impl UBig {
             mem::swap(&mut ay, &mut by);
         }
 
+        let half_u = &u >> 1usize;
+        let half_v = &v >> 1usize;
+
         // Binary algorithm.
         while a != UBig::from_word(0) {
             // b is odd
             while &a & 1u8 == 0u8 {
                 // a is even
-                if &ax & 1u8 != 0u8 || &ay & 1u8 != 0u8 {
-                    ax += &v;
-                    ay += &u;
-                }
-                // Now ax, ay are even.
+                let ax_odd = &ax & 1u8;
+                let ay_odd = &ay & 1u8;
                 a >>= 1usize;
                 ax >>= 1usize;
                 ay >>= 1usize;
+                if ax_odd != 0u8 || ay_odd != 0u8 {
+                    // ax + v and ay + u are even.
+                    // Their halves are added up separately: the sums could be too large.
+                    ax += &half_v;
+                    ax += ax_odd;
+                    ay += &half_u;
+                    ay += ay_odd;
+                }
                 // Again ax <= v, bx <= u.
             }
             // Both a and b are odd.
@@ -155,11 +163,13 @@ impl UBig {
             }
             a -= &b;
             if ax < bx {
-                ax += &v;
-                ay += &u;
+                // ax + v - bx, ay + u - by
+                ax = &v - (&bx - ax);
+                ay = &u - (&by - ay);
+            } else {
+                ax -= &bx;
+                ay -= &by;
             }
-            ax -= &bx;
-            ay -= &by;
             // ax >= 0 in both cases
             // ax <= v in both cases
             // ax * u - ay * v = a
-- 
2.43.0


From ee92b0de15e3402613f2ab822a7a25428a97778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 7/7] fix: converting a number close to the size limit to a
 modular ring does not overflow

---
 src/modular/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modular/convert.rs b/src/modular/convert.rs
index d709966..a179939 100644
--- a/src/modular/convert.rs
+++ b/src/modular/convert.rs
@@ -10,7 +10,7 @@ use crate::{
         modulo::{Modulo, ModuloLarge, ModuloRepr, ModuloSmall, ModuloSmallRaw},
         modulo_ring::{ModuloRing, ModuloRingLarge, ModuloRingRepr, ModuloRingSmall},
     },
-    primitive::extend_word,
+    primitive::{extend_word, split_double_word},
     shift,
     sign::Sign::*,
     ubig::{Repr, UBig},
@@ -197,13 +197,21 @@ impl<'a> ModuloSmall<'a> {
 }
 
 impl<'a> ModuloLarge<'a> {
-    pub(crate) fn from_ubig(mut x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
-        x <<= ring.shift() as usize;
+    pub(crate) fn from_ubig(x: UBig, ring: &'a ModuloRingLarge) -> ModuloLarge<'a> {
         let modulus = ring.normalized_modulus();
         let mut vec = Vec::with_capacity(modulus.len());
         match x.into_repr() {
-            Repr::Small(word) => vec.push(word),
+            Repr::Small(word) => {
+                let (lo, hi) = split_double_word(extend_word(word) << ring.shift());
+                vec.push(lo);
+                vec.push(hi);
+            }
             Repr::Large(mut words) => {
+                // The shifted words may not fit in a UBig.
+                let carry = shift::shl_in_place(&mut words, ring.shift());
+                if carry != 0 {
+                    words.push_may_reallocate(carry);
+                }
                 if words.len() < modulus.len() {
                     vec.extend(&*words);
                 } else {
-- 
2.43.0

