From d6dcfe127616ba28befb10f7f6eb4930fb7d18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 01/11] fix: only accept the four JSON whitespace characters
 between tokens

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..53984a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -99,11 +99,11 @@ macro_rules! expect_byte_ignore_whitespace {
         // Don't go straight for the loop, assume we are in the clear first.
         match ch {
             // whitespace
-            9 ..= 13 | 32 => {
+            9 | 10 | 13 | 32 => {
                 loop {
                     match expect_byte!($parser) {
-                        9 ..= 13 | 32 => {},
-                        next          => {
+                        9 | 10 | 13 | 32 => {},
+                        next             => {
                             ch = next;
                             break;
                         }
@@ -122,8 +122,8 @@ macro_rules! expect_eof {
     ($parser:ident) => ({
         while !$parser.is_eof() {
             match $parser.read_byte() {
-                9 ..= 13 | 32 => $parser.bump(),
-                _             => {
+                9 | 10 | 13 | 32 => $parser.bump(),
+                _                => {
                     $parser.bump();
                     return $parser.unexpected_character();
                 }
-- 
2.43.0


From 4bca144c88fa165e0a91fb9e2c84e1092a4c7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 02/11] fix: do not underflow the exponent on very long
 fractions

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 53984a7..d561ffa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -305,7 +305,9 @@ macro_rules! expect_fraction {
 
         match ch {
             b'0' ..= b'9' => {
-                if $num < MAX_PRECISION {
+                if $e == i16::min_value() {
+                    // The exponent cannot go any lower, drop the digit
+                } else if $num < MAX_PRECISION {
                     $num = $num * 10 + (ch - b'0') as u64;
                     $e -= 1;
                 } else {
@@ -333,7 +335,9 @@ macro_rules! expect_fraction {
             match ch {
                 b'0' ..= b'9' => {
                     $parser.bump();
-                    if $num < MAX_PRECISION {
+                    if $e == i16::min_value() {
+                        // The exponent cannot go any lower, drop the digit
+                    } else if $num < MAX_PRECISION {
                         $num = $num * 10 + (ch - b'0') as u64;
                         $e -= 1;
                     } else {
-- 
2.43.0


From 0d8f39c4725942348e901c15e8c131cf0c11a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 03/11] fix: saturate the parsed exponent only when the sum
 does not fit

---
 src/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d561ffa..6d2c0e2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -606,7 +606,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i32,
             _ => return self.unexpected_character(),
         };
 
@@ -618,13 +618,16 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i32);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        let e = (big_e as i32).saturating_add(e * sign);
+        let e = e.max(i16::min_value() as i32).min(i16::max_value() as i32) as i16;
+
+        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
     }
 
     // Parse away!
-- 
2.43.0


From f26aed8cb551398ae0e4090d9d6e07b974765fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 04/11] fix: converting the minimum of a signed type into a
 Number must not overflow

---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..670221b 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -440,7 +440,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From 6c8da065abae7a31cb722486edaba0cb85d8c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 05/11] fix: refuse out of range mantissas and NaN when
 converting a Number to a signed integer

---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 670221b..a396117 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -458,14 +458,14 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if num.is_nan() || exponent != 0 {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    mantissa as i128
                 } else {
-                    -(mantissa as i64)
+                    -(mantissa as i128)
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From 7fe71a2f011d58a08bd0dfd710d3b5a8206bb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 06/11] fix: compare and scale Numbers exactly instead of with
 wrapping math

---
 src/number.rs | 71 ++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index a396117..60ea2f0 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -130,7 +130,8 @@ impl Number {
     /// converting monetary values and doing arithmetic on them without
     /// rounding errors introduced by floating point operations.
     ///
-    /// Will return `None` if `Number` is negative or a NaN.
+    /// Will return `None` if `Number` is negative or a NaN, or if the result
+    /// does not fit in `u64`.
     ///
     /// ```
     /// # use json::number::Number;
@@ -147,15 +148,22 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
+        self.scaled_mantissa(point)
+    }
+
+    // Mantissa of the number at the fixed decimal point, truncated towards
+    // zero. `None` if it does not fit in `u64`.
+    fn scaled_mantissa(&self, point: u16) -> Option<u64> {
+        let e_diff = point as i32 + self.exponent as i32;
 
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
+        if e_diff < 0 {
+            Some(match decimal_power(-e_diff as u32) {
+                Some(power) => self.mantissa / power,
+                None        => 0,
+            })
         } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+            scale_up(self.mantissa, e_diff as u32)
+        }
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,21 +182,9 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
-        } else {
-            -(self.mantissa as i64)
-        };
+        let num = self.scaled_mantissa(point)? as i128;
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
-        } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+        i64::try_from(if self.is_sign_positive() { num } else { -num }).ok()
     }
 }
 
@@ -204,18 +200,14 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
-
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            scale_up(self.mantissa, e_diff as u32) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            Some(self.mantissa) == scale_up(other.mantissa, -e_diff as u32)
         }
 
     }
@@ -542,7 +534,7 @@ impl ops::Neg for Number {
 // }
 
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn decimal_power(e: u32) -> Option<u64> {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -567,14 +559,19 @@ fn decimal_power(mut e: u16) -> u64 {
     ];
 
     if e < 20 {
-        CACHED[e as usize]
+        Some(CACHED[e as usize])
     } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
+        // 10^20 and above do not fit in a `u64`
+        None
+    }
+}
 
-        pow
+// Multiply the mantissa by a power of ten, `None` if the result does not fit.
+#[inline]
+fn scale_up(mantissa: u64, e: u32) -> Option<u64> {
+    if mantissa == 0 {
+        return Some(0);
     }
+
+    decimal_power(e).and_then(|power| mantissa.checked_mul(power))
 }
-- 
2.43.0


From a027ccbb536237bc71633cf53d619c727c15b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 07/11] fix: clearing a short string leaves an empty string,
 not a null

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..5f4487c 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -560,6 +560,7 @@ impl JsonValue {
     pub fn clear(&mut self) {
         match *self {
             JsonValue::String(ref mut string) => string.clear(),
+            JsonValue::Short(_)               => *self = "".into(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
             _                                 => *self = JsonValue::Null,
-- 
2.43.0


From 237718c29368a3f93bac81fe3cfdc5f7ec0d2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 08/11] fix: do not overflow the indentation width when pretty
 printing

---
 src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..af7138b 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -230,7 +230,7 @@ impl Generator for DumpGenerator {
 /// Pretty In-Memory Generator, this uses a Vec to store the JSON result and add indent.
 pub struct PrettyGenerator {
     code: Vec<u8>,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -321,7 +321,7 @@ impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write {
 /// Pretty Writer Generator, this uses a custom writer to store the JSON result and add indent.
 pub struct PrettyWriterGenerator<'a, W: 'a + Write> {
     writer: &'a mut W,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From bc383b78d1576c52f200ccf6650dae5acdc339db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 09/11] fix: array! and object! evaluate every listed
 expression only once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..66e73cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = 0 $( + {let _ = stringify!($i); 1} )*;
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = 0 $( + {let _ = stringify!($k); 1} )*;
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From f063cc1b37b915a6a39f1159af3698c3fada9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 10/11] fix: report the line and column of an unexpected
 character that starts a line

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d2c0e2..01447b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -416,7 +416,7 @@ impl<'a> Parser<'a> {
                      .expect("Must have a character");
 
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 83289c3a4b1ba9bcb803150ce3572b300e829c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 11/11] fix: compare a value holding a short string with a
 String by its text

---
 src/value/implements.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..e6a8215 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,30 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        self == other.as_str()
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == *other.as_str()
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        other == self.as_str()
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0

