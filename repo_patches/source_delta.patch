From d67700dbc8881c0fafe8600a0f26f5b0aadbb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 01/36] fix: report missing hex digits when input ends inside
 \u{...}

The lexer panicked on an unterminated code point escape at the end of input.
---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 2fb6e87..97d2bd6 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -448,7 +448,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 digits.push(this.read_hex_digit_into(s)?);
                 Ok(())
             })?;
-            s.push(self.reread('}'));
+            if !self.matches('}') {
+                return Err(Error::MissingHexDigits);
+            }
+            s.push('}');
             Ok(add_digits(digits, 16))
         } else {
             let mut place = 0x1000;
-- 
2.43.0


From 10d438a193d13f5d12fb041632caed2cec996b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 02/36] fix: do not overflow on long \u{...} escapes

Eight or more digits overflowed the place value (a panic in debug builds, a
wrong code point otherwise); saturate, so that the value stays out of range.
---
 crates/joker/src/lexer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 97d2bd6..c806a18 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -11,13 +11,9 @@ use result::Result;
 use std::collections::VecDeque;
 
 fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
-    let mut place = 1;
-    let mut sum = 0;
-    for digit in digits.iter().rev() {
-        sum += digit * place;
-        place *= radix;
-    }
-    sum
+    digits.iter().fold(0u32, |sum, &digit| {
+        sum.saturating_mul(radix).saturating_add(digit)
+    })
 }
 
 struct SpanTracker {
-- 
2.43.0


From cff9d8843fc8faed040ec83705e3792ca1a50700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 03/36] fix: report an unterminated regexp at the end of input
 instead of panicking

---
 crates/joker/src/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index c806a18..8078194 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -244,7 +244,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let mut s = String::new();
         self.reread('/');
         self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
-        self.reread('/');
+        if !self.matches('/') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
         let flags = self.read_word_parts()?;
         Ok(span.end(self, TokenData::RegExp(RegExpLiteral {
             pattern: s,
@@ -274,7 +276,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {
         s.push(self.reread('['));
         self.read_until_with(&|ch| ch == ']', &mut |this| { this.read_regexp_class_char(s) })?;
-        s.push(self.reread(']'));
+        if !self.matches(']') {
+            return Err(Error::UnterminatedRegExp(None));
+        }
+        s.push(']');
         Ok(())
     }
 
-- 
2.43.0


From 9c0b5d60b139c774a07b192605cc521b58d3577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 04/36] fix: reject a line terminator inside a regexp character
 class

---
 crates/joker/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 8078194..bb2cdc9 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -286,6 +286,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
         match self.peek() {
             Some('\\') => self.read_regexp_backslash(s),
+            Some(ch) if ch.is_es_newline() => Err(Error::UnterminatedRegExp(Some(ch))),
             Some(ch) => { s.push(self.reread(ch)); Ok(()) }
             None => Err(Error::UnterminatedRegExp(None))
         }
-- 
2.43.0


From 61cc5fdc2e27b2865ac64f1416558add98fc88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 05/36] fix: treat U+2007 and U+2008 as white space

WhiteSpace includes every character of category Zs.
---
 crates/joker/src/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/char.rs b/crates/joker/src/char.rs
index 82fc594..6a65a5a 100644
--- a/crates/joker/src/char.rs
+++ b/crates/joker/src/char.rs
@@ -24,7 +24,7 @@ impl ESCharExt for char {
         match self {
               '\u{0009}' | '\u{000b}' | '\u{000c}' | '\u{0020}' | '\u{00a0}'
             | '\u{1680}' | '\u{2000}' | '\u{2001}' | '\u{2002}' | '\u{2003}' | '\u{2004}'
-            | '\u{2005}' | '\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
+            | '\u{2005}' | '\u{2006}' | '\u{2007}' | '\u{2008}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}'
             | '\u{3000}' | '\u{feff}' => true,
             _ => false
         }
-- 
2.43.0


From 1d4916ba690b09701b5ab07c786faafd3c36ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 06/36] fix: recognize --> after a multi-line block comment

A block comment that contains a line terminator acts as one (Annex B.1.3).
---
 crates/joker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index bb2cdc9..d5f14bb 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -603,7 +603,10 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 }
                 (Some('/'), Some('/')) => { self.skip_line_comment(2); }
                 (Some('/'), Some('*')) => {
-                    found_newline = self.skip_block_comment()? || found_newline;
+                    if self.skip_block_comment()? {
+                        found_newline = true;
+                        self.empty_line = true;
+                    }
                 }
                 (Some('<'), Some('!')) => {
                     if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {
-- 
2.43.0


From 46b57906efef67e68579ac0be99497cdcda2c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 07/36] fix: reject an escaped identifier immediately after a
 numeric literal

---
 crates/joker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index d5f14bb..a7f0393 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -400,7 +400,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             (None, _) => { panic!("read_number() called at EOF"); }
         }?;
         match self.peek() {
-            Some(ch) if ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
+            Some(ch) if ch == '\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }
             Some(ch) if ch.is_es_dec_digit() => { return Err(Error::DigitAfterNumber(ch)); }
             _ => {}
         }
-- 
2.43.0


From 7c540d0ea1ec4aef3f694ae34274efa817c444b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 08/36] fix: validate the characters that escapes denote in
 identifiers

\u0030 or \u{20} must not start or continue an identifier.
---
 crates/joker/src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index a7f0393..ca334a8 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -555,9 +555,11 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
         let mut dummy = String::with_capacity(4);
         let code_point = self.read_unicode_escape_seq(&mut dummy)?;
+        let first = s.text.is_empty();
         match char::from_u32(code_point) {
-            Some(ch) => { s.text.push(ch); Ok(()) }
-            None => Err(Error::IllegalUnicode(code_point))
+            Some(ch) if first && ch.is_es_identifier_start() ||
+                        !first && ch.is_es_identifier_continue() => { s.text.push(ch); Ok(()) }
+            _ => Err(Error::IllegalUnicode(code_point))
         }
     }
 
-- 
2.43.0


From 1b437d3d7f42d10568d92402b60b30d5093c1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/36] fix: round large binary, octal and hexadecimal literals
 correctly

Rounding after every digit gave a neighbouring double for literals such as
0x200000000000011.
---
 crates/joker/src/token.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/joker/src/token.rs b/crates/joker/src/token.rs
index edacecd..a47116f 100644
--- a/crates/joker/src/token.rs
+++ b/crates/joker/src/token.rs
@@ -212,11 +212,20 @@ impl NumberSource {
             }
             NumberSource::RadixInt(ref radix, ref src) => {
                 let radix = radix.value();
-                let mult = radix as f64;
 
-                src.chars()
-                .map(|c| c.to_digit(radix).unwrap() as f64)
-                .fold(0f64, |res, digit| res.mul_add(mult, digit))
+                // Keep the leading bits, with a sticky bit for the rest, so
+                // that the value is rounded only once.
+                let mut bits = 0u64;
+                let mut scale = 1f64;
+                for digit in src.chars().map(|c| c.to_digit(radix).unwrap() as u64) {
+                    if bits >> 59 == 0 {
+                        bits = bits * radix as u64 + digit;
+                    } else {
+                        bits |= (digit != 0) as u64;
+                        scale *= radix as f64;
+                    }
+                }
+                bits as f64 * scale
             }
             NumberSource::Float(ref ip, ref fp, None) => {
                 format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()
-- 
2.43.0


From 444d6ed182146a21aefa5c007b90a890e4e5b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 10/36] fix: reject code points above U+10FFFF in string
 escapes

---
 crates/joker/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index ca334a8..77b0c31 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -496,6 +496,9 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             Some('u') => {
                 source.push(self.reread('u'));
                 let code = self.read_unicode_escape_seq(source)?;
+                if code > 0x10FFFF {
+                    return Err(Error::IllegalUnicode(code));
+                }
                 value.push(char::from_u32(code).unwrap_or('?'));
             }
             Some(ch) if ch.is_es_newline() => {
-- 
2.43.0


From 2f2ebcc1876c5955d6f503f0870a1495ab28d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/36] fix: combine escaped surrogate pairs in string literals

'\ud83d\ude00' denotes one character; it was read as two.
---
 crates/joker/src/lexer.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index 77b0c31..f454f4e 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -16,6 +16,14 @@ fn add_digits(digits: Vec<u32>, radix: u32) -> u32 {
     })
 }
 
+fn combine_surrogates(high: u32, low: u32) -> Option<char> {
+    if high >= 0xD800 && high < 0xDC00 && low >= 0xDC00 && low < 0xE000 {
+        char::from_u32(0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00))
+    } else {
+        None
+    }
+}
+
 struct SpanTracker {
     start: Posn
 }
@@ -412,6 +420,8 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         let span = self.start();
         let mut source = String::new();
         let mut value = String::new();
+        // The length of the value after the last \u escape, and its code.
+        let mut last_escape = None;
         let quote = self.read();
         source.push(quote);
         loop {
@@ -422,7 +432,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
             });
             match self.peek() {
                 Some('\\') => {
-                    self.read_string_escape(&mut source, &mut value)?;
+                    self.read_string_escape(&mut source, &mut value, &mut last_escape)?;
                 }
                 Some(ch) if ch.is_es_newline() => {
                     return Err(Error::UnterminatedString(Some(ch)));
@@ -466,7 +476,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         }
     }
 
-    fn read_string_escape(&mut self, source: &mut String, value: &mut String) -> Result<()> {
+    fn read_string_escape(&mut self, source: &mut String, value: &mut String, last_escape: &mut Option<(usize, u32)>) -> Result<()> {
         source.push(self.reread('\\'));
         match self.peek() {
             Some(ch) if ch.is_es_oct_digit() => {
@@ -499,7 +509,18 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
                 if code > 0x10FFFF {
                     return Err(Error::IllegalUnicode(code));
                 }
-                value.push(char::from_u32(code).unwrap_or('?'));
+                // A surrogate pair spelled as two escapes is a single character.
+                let pair = match *last_escape {
+                    Some((len, high)) if len == value.len() => combine_surrogates(high, code),
+                    _ => None
+                };
+                if let Some(ch) = pair {
+                    value.pop();
+                    value.push(ch);
+                } else {
+                    value.push(char::from_u32(code).unwrap_or('?'));
+                    *last_escape = Some((value.len(), code));
+                }
             }
             Some(ch) if ch.is_es_newline() => {
                 self.read_newline_into(source);
-- 
2.43.0


From 4fa10e8c03dd6c25e6dc2bb7279f53763b664eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 12/36] fix: convert numbers uniformly in the optional and
 extracting accessors

get_i64 and friends accept any number that fits, but their optional and
extracting counterparts insisted on one representation, so that the field 5
could be read with get_i64 and not with get_i64_opt or extract_i64.
---
 crates/unjson/src/unjson.rs | 42 ++++++++-----------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index a7e9af4..e022d53 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -74,24 +74,21 @@ impl ValueEx for Value {
     fn as_i64_opt(&self) -> Result<Option<i64>> {
         Ok(match self {
             &Value::Null       => None,
-            &Value::I64(ref v) => Some(*v),
-            _ => { return type_error("i64 or null", self.ty()); }
+            v                  => Some(v.as_i64().ok_type("i64 or null", v.ty())?),
         })
     }
 
     fn as_u64_opt(&self) -> Result<Option<u64>> {
         Ok(match self {
             &Value::Null       => None,
-            &Value::U64(ref v) => Some(*v),
-            _ => { return type_error("u64 or null", self.ty()); }
+            v                  => Some(v.as_u64().ok_type("u64 or null", v.ty())?),
         })
     }
 
     fn as_f64_opt(&self) -> Result<Option<f64>> {
         Ok(match self {
             &Value::Null       => None,
-            &Value::F64(ref v) => Some(*v),
-            _ => { return type_error("f64 or null", self.ty()); }
+            v                  => Some(v.as_f64().ok_type("f64 or null", v.ty())?),
         })
     }
 
@@ -188,48 +185,27 @@ impl Unjson for Value {
     }
 
     fn to_i64(&self) -> Result<i64> {
-        match *self {
-            Value::I64(i) => Ok(i),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64().ok_type("i64", self.ty())
     }
 
     fn to_i64_opt(&self) -> Result<Option<i64>> {
-        match *self {
-            Value::I64(i) => Ok(Some(i)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("i64", self.ty()); }
-        }
+        self.as_i64_opt()
     }
 
     fn to_u64(&self) -> Result<u64> {
-        match *self {
-            Value::U64(u) => Ok(u),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64().ok_type("u64", self.ty())
     }
 
     fn to_u64_opt(&self) -> Result<Option<u64>> {
-        match *self {
-            Value::U64(u) => Ok(Some(u)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("u64", self.ty()); }
-        }
+        self.as_u64_opt()
     }
 
     fn to_f64(&self) -> Result<f64> {
-        match *self {
-            Value::F64(f) => Ok(f),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64().ok_type("f64", self.ty())
     }
 
     fn to_f64_opt(&self) -> Result<Option<f64>> {
-        match *self {
-            Value::F64(f) => Ok(Some(f)),
-            Value::Null   => Ok(None),
-            _ => { return type_error("f64", self.ty()); }
-        }
+        self.as_f64_opt()
     }
 
     fn to_number(&self) -> Result<f64> {
-- 
2.43.0


From 5ef15d1c8fa869e597e73c402a3a3bb28b5d0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 13/36] fix: mention null in the type errors of to_bool_opt and
 to_number_opt

---
 crates/unjson/src/unjson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/unjson/src/unjson.rs b/crates/unjson/src/unjson.rs
index e022d53..dd1b0f5 100644
--- a/crates/unjson/src/unjson.rs
+++ b/crates/unjson/src/unjson.rs
@@ -180,7 +180,7 @@ impl Unjson for Value {
         match *self {
             Value::Bool(b) => Ok(Some(b)),
             Value::Null    => Ok(None),
-            _ => { return type_error("boolean", self.ty()); }
+            _ => { return type_error("boolean or null", self.ty()); }
         }
     }
 
@@ -223,7 +223,7 @@ impl Unjson for Value {
             Value::U64(u) => Ok(Some(u as f64)),
             Value::F64(f) => Ok(Some(f)),
             Value::Null   => Ok(None),
-            _ => { return type_error("number", self.ty()); }
+            _ => { return type_error("number or null", self.ty()); }
         }
     }
 }
-- 
2.43.0


From bc91cfed3b75fb3107dcee2b31cb3f51837eac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 14/36] fix: require a script to extend to the end of the input

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f508913..eab9a52 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -225,7 +225,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
         debug_assert_eq!(self.goal, Goal::Unknown);
         self.goal = Goal::Script;
         self.context.strict = TriState::from(strict);
-        self.script_body()
+        let script = self.script_body()?;
+        self.expect(TokenData::EOF)?;
+        Ok(script)
     }
 
     fn script_body(&mut self) -> Result<Script> {
-- 
2.43.0


From c3f88f00b6d16457983953e470ae79e0ec98124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 15/36] fix: read a slash after a directive candidate as an
 operator

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index eab9a52..e5bc321 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
-            if !self.peek()?.expression_continuation() {
+            if !self.peek_op()?.expression_continuation() {
                 return Ok(Some(span.end_with_auto_semi(self, Newline::Required, |semi| Dir {
                     location: None,
                     string: literal.clone(),
-- 
2.43.0


From 49256d759ca25971b9e25ca3aab9e26495f17d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 16/36] fix: compare directives without their quotes

---
 crates/easter/src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/easter/src/stmt.rs b/crates/easter/src/stmt.rs
index c54c07e..2e6633e 100644
--- a/crates/easter/src/stmt.rs
+++ b/crates/easter/src/stmt.rs
@@ -129,7 +129,8 @@ pub struct Dir {
 impl Dir {
     pub fn pragma(&self) -> &str {
         if let Some(ref source) = self.string.source {
-            source
+            // The literal's source text includes its quotes.
+            &source[1..source.len() - 1]
         } else {
             &self.string.value
         }
-- 
2.43.0


From 853ef126d8f0a01f08d9057886b81c9fee1b37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 17/36] fix: let "use module" decide the goal of a program only

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e5bc321..d3b2028 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -248,7 +248,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 "use strict" => {
                     self.context.strict = Strict::Yes;
                 }
-                "use module" if !self.context.function => {
+                "use module" if !self.context.function && self.goal == Goal::Unknown => {
                     self.set_module();
                 }
                 _ => {}
@@ -291,6 +291,10 @@ impl<I: Iterator<Item=char>> Parser<I> {
             stmts.push(self.stmt_list_item(true)?);
         }
 
+        if self.goal == Goal::Module {
+            return Ok(ProgramItems::Module(stmts.into_iter().map(|stmt| stmt.into_mod_item()).collect()));
+        }
+
         Ok(ProgramItems::Script(stmts))
     }
 
-- 
2.43.0


From 96324205ba9d1d0ac61fd167f2970b3165f9d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 18/36] fix: report import and export as unsupported instead of
 panicking

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d3b2028..a896f2c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -307,9 +307,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             match self.peek()?.value {
                 TokenData::EOF => break,
                 // ES6: import declaration
-                TokenData::Reserved(Reserved::Import) => unimplemented!(),
+                TokenData::Reserved(Reserved::Import) => { return Err(Error::UnsupportedFeature("import")); }
                 // ES6: export declaration
-                TokenData::Reserved(Reserved::Export) => unimplemented!(),
+                TokenData::Reserved(Reserved::Export) => { return Err(Error::UnsupportedFeature("export")); }
                 _ => { }
             }
 
-- 
2.43.0


From bb101f78cd21436666dd42ef1c5fc93d7e568566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 19/36] fix: do not take the end of the input for an argument
 of break, continue and return

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 48770bd..524836e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -82,6 +82,6 @@ impl<I: Iterator<Item=char>> State for Parser<I> {
 
     fn has_arg_same_line(&mut self) -> Result<bool> {
         let next = self.peek()?;
-        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace)
+        Ok(!next.newline && next.value != TokenData::Semi && next.value != TokenData::RBrace && next.value != TokenData::EOF)
     }
 }
-- 
2.43.0


From e3d63f30a841569ee6a9add90ea94268e7c8c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 20/36] fix: allow a comma expression as the object of for-in

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a896f2c..c37ddc4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -926,7 +926,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     // 'for' '(' head 'in' .
     fn more_for_in(&mut self, head: Box<ForInHead>) -> Result<Stmt> {
-        let obj = self.allow_in(true, |this| this.assignment_expression())?;
+        let obj = self.allow_in(true, |this| this.expression())?;
         self.expect(TokenData::RParen)?;
         let body = Box::new(self.iteration_body()?);
         Ok(Stmt::ForIn(None, head, obj, body))
-- 
2.43.0


From 8d96a8d584985a125b81794e1716fb435f7a024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 21/36] fix: convert a final spread element to a rest pattern

---
 crates/easter/src/cover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/cover.rs b/crates/easter/src/cover.rs
index 491e23a..89ef354 100644
--- a/crates/easter/src/cover.rs
+++ b/crates/easter/src/cover.rs
@@ -64,9 +64,9 @@ impl IntoAssignPatt for Expr {
                 let mut patts = Vec::with_capacity(exprs.len());
                 let mut rest = None;
                 if let Some(last) = exprs.pop() {
-                    if let Some(ExprListItem::Spread(None, expr)) = last {
+                    if let Some(ExprListItem::Spread(location, expr)) = last {
                         rest = Some(Box::new(RestPatt {
-                            location: None,
+                            location: location,
                             patt: expr.into_assign_patt()?
                         }));
                     } else {
-- 
2.43.0


From d5e6d0e4ab238364eb4a9c7ecbb7d32d3fb3f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 22/36] fix: reject a label nested in a label of the same name

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index bcbf6de..436ad84 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -7,6 +7,7 @@ use joker::track::span;
 use easter::stmt::Stmt;
 use easter::id::Id;
 use result::Result;
+use error::Error;
 use parser::{Parser, Strict};
 
 pub trait WithContext {
@@ -23,6 +24,9 @@ impl<I: Iterator<Item=char>> WithContext for Parser<I> {
         let mut label_strings = Vec::new();
         for id in labels.iter() {
             let label = Rc::new(id.name.clone());
+            if self.context.labels.contains_key(&label) {
+                return Err(Error::InvalidLabel(id.clone()));
+            }
             self.context.labels.insert(label.clone(), label_type);
             label_strings.push(label);
         }
-- 
2.43.0


From 6cdd97c7ce361cc36667c9360f104db87ff70e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 23/36] fix: read let as an identifier where no declaration is
 allowed

---
 src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c37ddc4..11d8144 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -488,10 +488,10 @@ impl<I: Iterator<Item=char>> Parser<I> {
                         let id = self.new_id_from_token(false, token)?;
                         self.labelled_statement(id)
                     },
-                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
-                        if !allow_decl {
-                            return self.unexpected();
-                        }
+                    TokenData::LBrack if !allow_decl && token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
+                        return self.unexpected();
+                    }
+                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if allow_decl && token.value == TokenData::Identifier(Name::Atom(Atom::Let)) => {
                         return self.let_declaration(token.location.start).map(StmtListItem::Decl);
                     },
                     _ => {
-- 
2.43.0


From 48045fcf0c52d2860118f6a4cb359431ce20b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 24/36] fix: parse dereferences between the arguments of nested
 new expressions

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 11d8144..77737dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1385,7 +1385,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
         self.more_new_expression(news, base)
     }
 
-    // "new"+n MemberBaseExpression . Deref* Arguments<n Suffix*
+    // "new"+n MemberBaseExpression . Deref* (Arguments Deref*)<n Suffix*
     fn more_new_expression(&mut self, news: Vec<Token>, mut base: Expr) -> Result<Expr> {
         while let Some(deref) = self.deref_opt()? {
             base = deref.append_to(base);
@@ -1394,7 +1394,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
         for new in news.into_iter().rev() {
             has_args = has_args && self.peek_op()?.value == TokenData::LParen;
             base = if has_args {
-                self.arguments()?.append_to_new(new, base)
+                let mut base = self.arguments()?.append_to_new(new, base);
+                while let Some(deref) = self.deref_opt()? {
+                    base = deref.append_to(base);
+                }
+                base
             } else {
                 let location = span(&Some(new.location), &base);
                 Expr::New(location, Box::new(base), None)
-- 
2.43.0


From db2a1aa6101d8ca5c634f51f268949b4d45a39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 25/36] fix: reject new.target outside of functions

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 77737dc..0b1c81e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1498,7 +1498,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
         }
         if news.len() > 0 {
             if self.matches_op(TokenData::Dot)? {
-                let target_location = Some(self.expect(TokenData::Identifier(Name::Atom(Atom::Target)))?.location);
+                let target = self.expect(TokenData::Identifier(Name::Atom(Atom::Target)))?;
+                if !self.context.function {
+                    return Err(Error::UnexpectedToken(target));
+                }
+                let target_location = Some(target.location);
                 let new = news.pop();
                 let new_location = new.map(|new| new.location);
                 let new_target = Expr::NewTarget(span(&new_location, &target_location));
-- 
2.43.0


From b16633e845f0f76e1b59154504df53a0493bf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 26/36] fix: reject a for-of head that starts with a let
 expression

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0b1c81e..ff3e960 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -867,6 +867,10 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn for_expr(&mut self) -> Result<Stmt> {
+        let let_location = match *self.peek()? {
+            Token { value: TokenData::Identifier(Name::Atom(Atom::Let)), location, .. } => Some(location),
+            _ => None
+        };
         let lhs = self.allow_in(false, |this| this.expression())?;
         match self.peek()?.value {
             TokenData::Semi => {
@@ -885,6 +889,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 self.more_for_in(head)
             }
             TokenData::Identifier(Name::Atom(Atom::Of)) => {
+                if let Some(location) = let_location {
+                    return Err(Error::ForOfLetExpr(location));
+                }
                 self.reread(TokenData::Identifier(Name::Atom(Atom::Of)));
                 let lhs_location = *lhs.tracking_ref();
                 let lhs = match lhs.into_assign_patt() {
-- 
2.43.0


From 74091b409370655db2750a8fe5762bc0836dbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 27/36] fix: identify escaped names with their unescaped
 spellings

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ff3e960..5f55eda 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -575,6 +575,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
+        // A name that was written with escapes is still the same name.
+        let name = Name::from(name.into_string());
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
-- 
2.43.0


From 044aba3f2a0009cda8e0ae57a83faa5446e1e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 28/36] fix: read a slash after let in a for head as an
 operator

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5f55eda..3c21014 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -784,7 +784,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     // 'for' '(' 'let' .
     fn for_let(&mut self) -> Result<Stmt> {
         let let_token = self.reread(TokenData::Identifier(Name::Atom(Atom::Let)));
-        if !self.peek()?.first_binding() {
+        if !self.peek_op()?.first_binding() {
             self.lexer.unread_token(let_token);
             return self.for_expr();
         }
-- 
2.43.0


From d72e204f90b70c16113aed8d6ab5b2da5a0b5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 29/36] fix: locate nodes from their first to their last token

---
 crates/joker/src/lexer.rs | 30 +++++++++++++++++++++++++-----
 src/parser.rs             | 20 ++++++++++----------
 src/track.rs              | 37 +++++++++++++++++++------------------
 3 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/crates/joker/src/lexer.rs b/crates/joker/src/lexer.rs
index f454f4e..7b13357 100644
--- a/crates/joker/src/lexer.rs
+++ b/crates/joker/src/lexer.rs
@@ -40,6 +40,7 @@ impl SpanTracker {
 pub struct Lexer<I> {
     reader: Reader<I>,
     lookahead: VecDeque<Token>,
+    ends: VecDeque<Posn>, // where the last consumed tokens ended
     wordmap: WordMap,
     empty_line: bool
 }
@@ -51,6 +52,7 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
         Lexer {
             reader: Reader::new(chars),
             lookahead: VecDeque::with_capacity(2),
+            ends: VecDeque::with_capacity(3),
             wordmap: WordMap::new(),
             empty_line: true
         }
@@ -76,27 +78,45 @@ impl<I> Lexer<I> where I: Iterator<Item=char> {
     }
 
     pub fn reread_token(&mut self) -> Token {
-        self.lookahead.pop_front().unwrap()
+        let token = self.lookahead.pop_front().unwrap();
+        self.consumed(&token);
+        token
     }
 
     pub fn read_token(&mut self, operator: bool) -> Result<Token> {
-        match self.lookahead.pop_front() {
-            Some(token) => Ok(token),
-            None => self.read_next_token(operator)
-        }
+        let token = match self.lookahead.pop_front() {
+            Some(token) => token,
+            None => self.read_next_token(operator)?
+        };
+        self.consumed(&token);
+        Ok(token)
     }
 
     pub fn unread_token(&mut self, token: Token) {
         debug_assert!(self.lookahead.len() < self.lookahead.capacity(), "Lookahead buffer is full");
+        self.ends.pop_back();
         self.lookahead.push_front(token)
     }
 
+    // One more end than the lookahead buffer has room for tokens that can be unread.
+    fn consumed(&mut self, token: &Token) {
+        if self.ends.len() > 2 {
+            self.ends.pop_front();
+        }
+        self.ends.push_back(token.location.end);
+    }
+
     // source location
 
     pub fn posn(&self) -> Posn {
         self.reader.curr_posn()
     }
 
+    /// The end of the last token that was read and not unread.
+    pub fn last_end(&self) -> Posn {
+        self.ends.back().cloned().unwrap_or_else(Posn::origin)
+    }
+
     fn start(&self) -> SpanTracker {
         SpanTracker { start: self.posn() }
     }
diff --git a/src/parser.rs b/src/parser.rs
index 3c21014..8a454ce 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,7 +164,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn match_directive_opt(&mut self) -> Result<Option<Dir>> {
-        let span = self.start();
+        let span = self.start()?;
         let token1 = self.read()?;
 
         if let TokenData::String(ref literal) = token1.value {
@@ -530,7 +530,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn expression_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let expr = self.allow_in(true, |this| this.expression())?;
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Expr(None, expr, semi))?)
     }
@@ -548,7 +548,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn var_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Var));
         let dtors = self.comma_separated(Self::declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Var(None, dtors, semi))
@@ -561,7 +561,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn const_declaration(&mut self) -> Result<Decl> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Const));
         let dtors = self.comma_separated(Self::const_declarator)?;
         span.end_with_auto_semi(self, Newline::Required, |semi| Decl::Const(None, dtors, semi))
@@ -679,7 +679,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn do_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Do));
         let body = Box::new(self.iteration_body()?);
         self.expect(TokenData::Reserved(Reserved::While))?;
@@ -1029,7 +1029,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn break_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let break_token = self.reread(TokenData::Reserved(Reserved::Break));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1049,7 +1049,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn continue_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let continue_token = self.reread(TokenData::Reserved(Reserved::Continue));
         let arg = if self.has_arg_same_line()? {
             let id = self.id(false)?;
@@ -1071,7 +1071,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn return_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Return));
         let arg = if self.has_arg_same_line()? {
             Some(self.allow_in(true, |this| this.expression())?)
@@ -1101,7 +1101,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn throw_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         let token = self.reread(TokenData::Reserved(Reserved::Throw));
         if !self.has_arg_same_line()? {
             return Err(Error::ThrowArgument(token));
@@ -1157,7 +1157,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     }
 
     fn debugger_statement(&mut self) -> Result<Stmt> {
-        let span = self.start();
+        let span = self.start()?;
         self.reread(TokenData::Reserved(Reserved::Debugger));
         Ok(span.end_with_auto_semi(self, Newline::Required, |semi| Stmt::Debugger(None, semi))?)
     }
diff --git a/src/track.rs b/src/track.rs
index 8690035..5d53862 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -9,7 +9,7 @@ use state::State;
 pub trait Tracking {
     fn vec_span<T: TrackingRef>(&self, v: &Vec<T>) -> Option<Span>;
     fn posn(&self) -> Posn;
-    fn start(&self) -> SpanTracker;
+    fn start(&mut self) -> Result<SpanTracker>;
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut;
@@ -29,18 +29,17 @@ impl<I> Tracking for Parser<I> where I: Iterator<Item=char> {
         self.lexer.posn()
     }
 
-    fn start(&self) -> SpanTracker {
-        SpanTracker::new(self.posn())
+    fn start(&mut self) -> Result<SpanTracker> {
+        Ok(SpanTracker::new(self.peek()?.location.start))
     }
 
     fn span<F, T>(&mut self, parse: &mut F) -> Result<T>
       where F: FnMut(&mut Self) -> Result<T>,
             T: TrackingMut
     {
-        let start = self.posn();
+        let span = self.start()?;
         let mut value = parse(self)?;
-        let end = self.posn();
-        *value.tracking_mut() = Some(Span { start: start, end: end });
+        *value.tracking_mut() = span.end(self);
         Ok(value)
     }
 }
@@ -56,36 +55,38 @@ pub struct SpanTracker {
 }
 
 impl SpanTracker {
-/*
-    pub fn end<I, T>(&self, parser: &Parser<I>, value: T) -> Tracked<T>
-      where I: Iterator<Item=char>
-    {
-        Tracked { value: value, location: Some(Span { start: self.start, end: parser.posn() }) }
-    }
-*/
-
     pub fn new(start: Posn) -> Self {
         SpanTracker { start: start }
     }
 
+    // From the first token's start to the last consumed token's end.
+    pub fn end<I>(&self, parser: &Parser<I>) -> Option<Span>
+      where I: Iterator<Item=char>
+    {
+        let end = parser.lexer.last_end();
+        Some(Span {
+            start: self.start,
+            end: if end.offset < self.start.offset { self.start } else { end }
+        })
+    }
+
     pub fn end_with_auto_semi<I, T, F>(&self, parser: &mut Parser<I>, newline: Newline, cons: F)
         -> Result<T>
       where I: Iterator<Item=char>,
             F: FnOnce(Semi) -> T,
             T: TrackingMut
     {
-        let before = parser.posn();
         match parser.peek()? {
             &Token { value: TokenData::Semi, location, .. } => {
                 parser.reread(TokenData::Semi);
                 let mut result = cons(Semi::Explicit(Some(location.start)));
-                *result.tracking_mut() = Some(Span { start: self.start, end: parser.posn() });
+                *result.tracking_mut() = self.end(parser);
                 Ok(result)
             }
             &Token { value: TokenData::RBrace, .. }
           | &Token { value: TokenData::EOF, .. } => {
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = self.end(parser);
                 Ok(result)
             }
             &Token { newline: found_newline, .. } => {
@@ -94,7 +95,7 @@ impl SpanTracker {
                     return Err(Error::FailedASI(token));
                 }
                 let mut result = cons(Semi::Inserted);
-                *result.tracking_mut() = Some(Span { start: self.start, end: before });
+                *result.tracking_mut() = self.end(parser);
                 Ok(result)
             }
         }
-- 
2.43.0


From eff37fa54fad0615a267b0fbcd3c000d12da8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 30/36] fix: include the operands in the locations of
 conditional, increment and decrement expressions

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8a454ce..6004694 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1541,8 +1541,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
             arg = match arg.into_assign_target().map(Box::new) {
                 Ok(target) => {
                     match postfix {
-                        Postfix::Inc(location) => Expr::PostInc(Some(location), target),
-                        Postfix::Dec(location) => Expr::PostDec(Some(location), target)
+                        Postfix::Inc(location) => Expr::PostInc(span(&arg_location, &Some(location)), target),
+                        Postfix::Dec(location) => Expr::PostDec(span(&arg_location, &Some(location)), target)
                     }
                 }
                 Err(cover_err) => { return Err(Error::InvalidLHS(arg_location, cover_err)); }
@@ -1559,8 +1559,8 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     arg = match arg.into_assign_target().map(Box::new) {
                         Ok(target) => {
                             match prefix {
-                                Prefix::Inc(location) => Expr::PreInc(Some(location), target),
-                                Prefix::Dec(location) => Expr::PreDec(Some(location), target),
+                                Prefix::Inc(location) => Expr::PreInc(span(&Some(location), &arg_location), target),
+                                Prefix::Dec(location) => Expr::PreDec(span(&Some(location), &arg_location), target),
                                 Prefix::Unop(_) => unreachable!()
                             }
                         }
@@ -1640,7 +1640,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             let cons = self.allow_in(true, |this| this.assignment_expression())?;
             self.expect(TokenData::Colon)?;
             let alt = self.assignment_expression()?;
-            let location = span(&cons, &alt);
+            let location = span(&left, &alt);
             return Ok(Expr::Cond(location, Box::new(left), Box::new(cons), Box::new(alt)));
         }
         Ok(left)
-- 
2.43.0


From 562a44363e8cc5e42a5c42d8f597361cd3b4a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 31/36] fix: locate accessors and methods from their first to
 their last token

---
 src/parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6004694..22d76f8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1274,8 +1274,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::LParen => {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
+                let end = self.lexer.last_end();
                 Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: key.tracking_ref().map(|key| Span { start: key.start, end: end }),
                     id: key,
                     params: params,
                     body: body,
@@ -1320,11 +1321,12 @@ impl<I: Iterator<Item=char>> Parser<I> {
         match first.value {
             TokenData::Identifier(Name::Atom(Atom::Get)) => {
                 if let Some(key) = self.property_key_opt()? {
-                    let paren_location = Some(self.expect(TokenData::LParen)?.location);
+                    let paren_location = self.expect(TokenData::LParen)?.location;
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&vec![])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let end = self.lexer.last_end();
+                    let val_location = Some(Span { start: paren_location.start, end: end });
+                    let prop_location = Some(Span { start: first.location.start, end: end });
                     return Ok(Prop::Regular(prop_location, key, PropVal::Get(val_location, body)));
                 }
                 let key_location = Some(first.location);
@@ -1332,12 +1334,13 @@ impl<I: Iterator<Item=char>> Parser<I> {
             }
             TokenData::Identifier(Name::Atom(Atom::Set)) => {
                 if let Some(key) = self.property_key_opt()? {
-                    let paren_location = Some(self.expect(TokenData::LParen)?.location);
+                    let paren_location = self.expect(TokenData::LParen)?.location;
                     let param = self.pattern()?;
                     self.expect(TokenData::RParen)?;
                     let body = self.function_body(&[param.clone()])?;
-                    let val_location = span(&paren_location, &body);
-                    let prop_location = span(&key, &body);
+                    let end = self.lexer.last_end();
+                    let val_location = Some(Span { start: paren_location.start, end: end });
+                    let prop_location = Some(Span { start: first.location.start, end: end });
                     return Ok(Prop::Regular(prop_location, key, PropVal::Set(val_location, param, body)));
                 }
                 let key_location = Some(first.location);
@@ -1347,8 +1350,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let key = self.property_key()?;
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
+                let location = Span { start: first.location.start, end: self.lexer.last_end() };
                 Ok(Prop::Method(Fun {
-                    location: span(key.tracking_ref(), body.tracking_ref()),
+                    location: Some(location),
                     id: key,
                     params: params,
                     body: body,
-- 
2.43.0


From 36cf2769e6aecfea2a6c3a847f5351f163232a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 32/36] fix: check the name and parameters of a function whose
 body is strict

---
 src/parser.rs | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 22d76f8..3e3c412 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -330,7 +330,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
 
     fn function_declaration(&mut self) -> Result<Decl> {
         self.span(&mut |this| {
-            Ok(Decl::Fun(this.function(|this| this.id(true))?))
+            let fun = this.function(|this| this.id(true))?;
+            this.check_function_ids(Some(&fun.id), &fun.params, &fun.body)?;
+            Ok(Decl::Fun(fun))
         })
     }
 
@@ -577,6 +579,11 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn new_id(&mut self, binding: bool, name: Name, location: Span) -> Result<Id> {
         // A name that was written with escapes is still the same name.
         let name = Name::from(name.into_string());
+        self.check_id(binding, &name, location)?;
+        Ok(Id::new(name, Some(location)))
+    }
+
+    fn check_id(&mut self, binding: bool, name: &Name, location: Span) -> Result<()> {
         self.strict_check(|_| {
             if binding && name.is_illegal_strict_binding() {
                 return Some(Check::Strict(Error::IllegalStrictBinding(location, name.atom().unwrap())));
@@ -593,8 +600,25 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 });
             }
             None
-        })?;
-        Ok(Id::new(name, Some(location)))
+        })
+    }
+
+    // The name and the parameters of a function are strict code if its body is.
+    fn check_function_ids(&mut self, id: Option<&Id>, params: &Params, body: &Script) -> Result<()> {
+        if !body.dirs.iter().any(|dir| dir.pragma() == "use strict") {
+            return Ok(());
+        }
+        let strict = replace(&mut self.context.strict, Strict::Yes);
+        let patts = params.list.iter().chain(params.rest.iter().map(|rest| &rest.patt));
+        let ids = patts.filter_map(|patt| match *patt {
+            Patt::Simple(ref id) => Some(id),
+            Patt::Compound(_) => None
+        });
+        for id in id.into_iter().chain(ids) {
+            self.check_id(true, &id.name, id.location.unwrap())?;
+        }
+        self.context.strict = strict;
+        Ok(())
     }
 
     fn id(&mut self, binding: bool) -> Result<Id> {
@@ -1196,7 +1220,9 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::LBrace                    => { return self.object_literal(token); }
             TokenData::Reserved(Reserved::Function) => {
                 self.lexer.unread_token(token);
-                return Ok(Expr::Fun(self.function(|this| this.id_opt(true))?));
+                let fun = self.function(|this| this.id_opt(true))?;
+                self.check_function_ids(fun.id.as_ref(), &fun.params, &fun.body)?;
+                return Ok(Expr::Fun(fun));
             }
             TokenData::LParen => {
                 self.lexer.unread_token(token);
@@ -1274,6 +1300,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
             TokenData::LParen => {
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
+                self.check_function_ids(None, &params, &body)?;
                 let end = self.lexer.last_end();
                 Prop::Method(Fun {
                     location: key.tracking_ref().map(|key| Span { start: key.start, end: end }),
@@ -1337,7 +1364,10 @@ impl<I: Iterator<Item=char>> Parser<I> {
                     let paren_location = self.expect(TokenData::LParen)?.location;
                     let param = self.pattern()?;
                     self.expect(TokenData::RParen)?;
-                    let body = self.function_body(&[param.clone()])?;
+                    let params = Params { location: None, list: vec![param], rest: None };
+                    let body = self.function_body(&params.list)?;
+                    self.check_function_ids(None, &params, &body)?;
+                    let param = params.list.into_iter().next().unwrap();
                     let end = self.lexer.last_end();
                     let val_location = Some(Span { start: paren_location.start, end: end });
                     let prop_location = Some(Span { start: first.location.start, end: end });
@@ -1350,6 +1380,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
                 let key = self.property_key()?;
                 let params = self.formal_parameters()?;
                 let body = self.function_body(&params.list)?;
+                self.check_function_ids(None, &params, &body)?;
                 let location = Span { start: first.location.start, end: self.lexer.last_end() };
                 Ok(Prop::Method(Fun {
                     location: Some(location),
-- 
2.43.0


From 72899eb9040c4263f6ca05cd1c286fcf7b8cd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 33/36] fix: blame the token after const in a for head that
 binds nothing

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3e3c412..6aeb4e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -857,8 +857,7 @@ impl<I: Iterator<Item=char>> Parser<I> {
     fn for_const(&mut self) -> Result<Stmt> {
         let const_token = self.reread(TokenData::Reserved(Reserved::Const));
         if !self.peek()?.first_binding() {
-            self.lexer.unread_token(const_token);
-            return self.for_expr();
+            return self.unexpected();
         }
         let const_location = Some(const_token.location);
         // 'for' '(' 'const' . !{id, patt} ==> error
-- 
2.43.0


From 627a46544af63d83de555026ed79a2a5e1df7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 34/36] fix: locate a declarator built with an optional
 initializer from its name to the initializer

---
 crates/easter/src/decl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/easter/src/decl.rs b/crates/easter/src/decl.rs
index bf9b341..5b17f7f 100644
--- a/crates/easter/src/decl.rs
+++ b/crates/easter/src/decl.rs
@@ -65,8 +65,11 @@ impl DtorExt for Dtor {
 
     fn from_init_opt(lhs: Patt<Id>, rhs: Option<Expr>) -> Result<Dtor, Patt<Id>> {
         match (lhs, rhs) {
-            (Patt::Simple(id), rhs) => {
-                Ok(Dtor::Simple(*id.tracking_ref(), id, rhs))
+            (Patt::Simple(id), None) => {
+                Ok(Dtor::Simple(*id.tracking_ref(), id, None))
+            }
+            (Patt::Simple(id), Some(rhs)) => {
+                Ok(Dtor::from_simple_init(id, rhs))
             }
             (lhs @ Patt::Compound(_), None) => Err(lhs),
             (Patt::Compound(patt), Some(rhs)) => {
-- 
2.43.0


From 3a80c7ec6676ba9f97d9f35e357b695b16d1ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 35/36] fix: reject an initializer in the head of an ESTree
 for-of loop

---
 crates/estree/src/error.rs | 2 +-
 crates/estree/src/stmt.rs  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/error.rs b/crates/estree/src/error.rs
index 5983b06..c381649 100644
--- a/crates/estree/src/error.rs
+++ b/crates/estree/src/error.rs
@@ -32,7 +32,7 @@ impl Display for Error {
                 fmt.write_fmt(format_args!("expected {} node, got {}", expected, actual))
             }
             &Error::UnexpectedInitializer(_) => {
-                fmt.write_fmt(format_args!("unexpected initializer in for-in loop"))
+                fmt.write_fmt(format_args!("unexpected initializer in for-in or for-of loop"))
             }
             &Error::InvalidLHS(_) => {
                 fmt.write_fmt(format_args!("invalid left-hand side of assignment"))
diff --git a/crates/estree/src/stmt.rs b/crates/estree/src/stmt.rs
index fc32cb0..2148121 100644
--- a/crates/estree/src/stmt.rs
+++ b/crates/estree/src/stmt.rs
@@ -91,6 +91,9 @@ impl IntoForOfHead for Object {
                 }
                 let mut obj = dtors.remove(0).into_object()?;
                 let lhs = obj.extract_patt("id")?;
+                if let Some(init) = obj.extract_expr_opt("init")? {
+                    return Err(Error::UnexpectedInitializer(init));
+                }
                 match &kind[..] {
                     "var" => ForOfHead::Var(None, lhs),
                     "let" => ForOfHead::Let(None, lhs),
-- 
2.43.0


From 193a02ab1ebfd24fc24f0320ef755f9271995a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 36/36] fix: reject computed keys of ESTree properties instead
 of reading them as names

---
 crates/estree/src/obj.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/estree/src/obj.rs b/crates/estree/src/obj.rs
index 338f081..8ad0924 100644
--- a/crates/estree/src/obj.rs
+++ b/crates/estree/src/obj.rs
@@ -2,11 +2,12 @@ use easter::obj::{Prop, PropKey, PropVal};
 use easter::expr::Expr;
 use unjson::ty::{Object, Ty};
 use unjson::ExtractField;
+use serde_json::value::Value;
 
 use tag::{Tag, TagOf};
 use id::IntoId;
 use result::Result;
-use error::{type_error, array_error};
+use error::{type_error, array_error, string_error};
 use node::ExtractNode;
 use expr::IntoExpr;
 use fun::IntoFun;
@@ -18,6 +19,10 @@ pub trait IntoObj {
 
 impl IntoObj for Object {
     fn into_prop(mut self) -> Result<Prop> {
+        if let Some(Value::Bool(true)) = self.remove("computed") {
+            return string_error("identifier, number literal, or string literal",
+                                String::from("computed key"));
+        }
         let key = self.extract_object("key")?;
         let mut val = self.extract_object("value")?;
         let kind = self.extract_string("kind")?;
-- 
2.43.0

