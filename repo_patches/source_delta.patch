From 7951926fb63288fc80cc1d873ac36b2b16673ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:19 +0000
Subject: [PATCH 01/54] fix: keep a leading + in front of the 0 of prefixed
 integers

+0x1f got the value 0+x1f: the 0 was prepended to the token, sign included.
---
 src/lexer/parse_numeric.rs | 10 ++--------
 src/token_buf.rs           |  6 ------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..9710543 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -26,6 +26,7 @@ impl Lexer {
             c = self.nextc();
         }
         if c == b'0' {
+            self.tokadd(c);
             let start = self.toklen();
             c = self.nextc();
             if c == b'x' || c == b'X' {
@@ -67,7 +68,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +150,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -178,14 +176,11 @@ impl Lexer {
             }
             if c > b'7' && c <= b'9' {
                 self.invalid_octal();
-            } else if c == b'.' || c == b'e' || c == b'E' {
-                self.tokadd(b'0');
-            } else {
+            } else if c != b'.' && c != b'e' && c != b'E' {
                 self.buffer.pushback(c);
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
 
                 let mut tok = self.tokenbuf.take();
-                tok.push(b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
         }
@@ -304,7 +299,6 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..a6bab32 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,12 +26,6 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
-        self.bytes.set_raw(tmp);
-    }
-
     pub(crate) fn borrow_string(&self) -> Result<&str, &[u8]> {
         match std::str::from_utf8(self.bytes.as_raw()) {
             Ok(s) => Ok(s),
-- 
2.43.0


From 60dbc22f0c6a8d0ec7e58867b536ae33a224cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:25 +0000
Subject: [PATCH 02/54] fix: do not drop the e of 1e at the end of the input

The character read after the e was pushed back twice; at the end of the input
that is no character at all and the e vanished. Pushing back a character also
takes the buffer away from its end.
---
 src/lexer/parse_numeric.rs | 2 ++
 src/source/buffer.rs       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 9710543..f862b14 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -224,9 +224,11 @@ impl Lexer {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
                     nondigit = Some(c);
+                    let exponent = c;
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
+                        c = exponent;
                         nondigit = None;
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..6625de7 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -309,7 +309,9 @@ impl Buffer {
         self.pbeg = self.input.line_at(self.lastline).start;
         self.pend = self.pbeg + self.input.line_at(self.lastline).len();
         self.pcur = self.pend;
+        let eofp = self.eofp;
         self.pushback(1);
+        self.eofp = eofp;
         self.set_ptok(self.pcur);
     }
 
@@ -333,6 +335,7 @@ pub(crate) trait Pushback<T> {
 
 impl Pushback<u8> for Buffer {
     fn pushback(&mut self, c: u8) {
+        self.eofp = false;
         self.pcur -= 1;
         if self.pcur > self.pbeg
             && self.byte_at(self.pcur) == b'\n'
-- 
2.43.0


From 3aa9ceb522135b89b3cdf709b2963e46197b2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:05 +0000
Subject: [PATCH 03/54] fix: treat a carriage return in the middle of a line as
 white space

It was only warned about and then became part of an identifier.
---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..9b74f6a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -225,6 +225,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 5433939a0781633ccddebdfaf54997e8bc9b5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:08 +0000
Subject: [PATCH 04/54] fix: keep a non-ASCII character behind a backslash
 intact in '' strings

Its first byte was added twice, with a second backslash in between.
---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..04b4a38 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 473d2f959b4796c5325f64fbd8c23012c16080c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:12 +0000
Subject: [PATCH 05/54] fix: \8 and \9 are not octal escapes

They gave a NUL character in front of the digit.
---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 04b4a38..72c3c88 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -664,7 +664,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From b973168cc8390b4bd3bc7fcd530961dc1e12af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:15 +0000
Subject: [PATCH 06/54] fix: two hexadecimal digits for control escapes in
 regular expressions

/\cA/ became \x1 followed by a NUL character.
---
 src/lexer/parse_string.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 72c3c88..4600c9b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -1,5 +1,4 @@
 use std::convert::TryInto;
-use std::io::Write;
 
 use crate::maybe_byte::*;
 use crate::source::buffer::*;
@@ -324,10 +323,9 @@ impl Lexer {
                                     self.buffer.pushback(c);
                                     c = self.read_escape(0);
 
-                                    let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
-                                    for byte in escbuf.iter().take(4) {
-                                        self.tokadd(MaybeByte::Some(*byte));
+                                    let escbuf = format!("\\x{:02X}", c.expect("bug"));
+                                    for byte in escbuf.bytes() {
+                                        self.tokadd(byte);
                                     }
                                     continue;
                                 }
-- 
2.43.0


From 3b2e4e510b298970b1266e230f36422c88ed129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:31 +0000
Subject: [PATCH 07/54] fix: name the escape in the invalid character syntax
 warning

It printed the number of its letter, ?\115 for ?\s.
---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 4600c9b..5cd5db9 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -771,7 +771,7 @@ impl Lexer {
     pub(crate) fn warn_space_char(&mut self, c: u8, prefix: &'static str) {
         self.warn(
             DiagnosticMessage::InvalidCharacterSyntax {
-                suggestion: format!("{}\\{}", prefix, c),
+                suggestion: format!("{}\\{}", prefix, c as char),
             },
             self.current_loc(),
         )
-- 
2.43.0


From 07df38f7fcea3c1cc45647049a84a0ece3569fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:22 +0000
Subject: [PATCH 08/54] fix: compare names of magic comments without regard to
 case

# Encoding: and # Frozen-String-Literal: were ignored.
---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..c47ef9d 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -316,7 +316,7 @@ impl Lexer {
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-                if &name_to_compare == name {
+                if name_to_compare.eq_ignore_ascii_case(name) {
                     if kind == &MagicCommentKind::Encoding && self.comment_at_top() {
                         let encoding = match String::from_utf8(
                             self.buffer
-- 
2.43.0


From 265274deedd1fca7777ae422c157db9e2f8bb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 09/54] fix: keep the input when it cannot be decoded

Locations of the result pointed into an input that had become empty.
---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..8eac8eb 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -64,7 +64,7 @@ impl Input {
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.bytes.clone(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From a5ffdd505e01203b63b28ef3202a5034f3fd39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:27 +0000
Subject: [PATCH 10/54] fix: read the line of the encoding comment to its
 decoded end

Its comment was cut off where the line ended before decoding.
---
 src/source/buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 6625de7..51228b0 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -325,7 +325,12 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        self.input.set_encoding(encoding)?;
+        // decoding may have changed the length of the current line
+        if let Some(line) = self.input.decoded.lines.get(self.lastline) {
+            self.pend = line.end;
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 3d07c00fc1d709a0d3ed0ffeed00eb1e1e31deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:00 +0000
Subject: [PATCH 11/54] fix: locations of here-document contents

The content in front of an interpolation included the first character of the
interpolation, that of a raw here-document ran into the terminator, and that of
the second here-document of a line started at the body of the first.
---
 src/lexer/parse_heredoc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..deebf43 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -129,10 +129,15 @@ impl Lexer {
         let func = here.func;
         let indent = here.func & STR_FUNC_INDENT;
 
+        let pbeg = self.buffer.pbeg;
         let mut c = self.nextc();
         if c.is_eof() {
             return self.here_document_error(&here, eos, len);
         }
+        if self.buffer.pbeg != pbeg {
+            // the next line of the body, behind any bodies read before
+            self.lval_start = Some(self.buffer.pbeg);
+        }
         let bol = self.buffer.was_bol();
         if !bol {
             /* not beginning of line, cannot be the terminator */
@@ -207,7 +212,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    self.lval_end = Some(self.buffer.pend - 1);
+                    self.lval_end = Some(self.buffer.pbeg);
                     heredoc_end = self.compute_heredoc_end();
                     break;
                 }
@@ -240,7 +245,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(self.buffer.pcur);
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -248,6 +253,7 @@ impl Lexer {
                     return self.heredoc_flush();
                 }
                 let cc = self.nextc();
+                self.lval_end = Some(self.buffer.pcur);
                 self.tokadd(cc);
                 if self.buffer.heredoc_indent > 0 {
                     self.buffer.goto_eol();
-- 
2.43.0


From 5b29dcc4e8bc13e8b6562ca37bc68140ac308b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 12/54] fix: drop the carriage return of CRLF line ends in raw
 here-documents

As in all other string literals, a CRLF line end reads as a newline.
---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index deebf43..dfe65b3 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -168,6 +168,8 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From a084e52234919a607d5501c5d1aa746ebb4ad41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:06 +0000
Subject: [PATCH 13/54] fix: value of the terminator of a here-document

It kept a carriage return at its end and tabs in front of it, and lost spaces
that belong to the identifier.
---
 src/lexer/parse_heredoc.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index dfe65b3..020c67a 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -215,7 +215,7 @@ impl Lexer {
                     indent,
                 ) {
                     self.lval_end = Some(self.buffer.pbeg);
-                    heredoc_end = self.compute_heredoc_end();
+                    heredoc_end = self.compute_heredoc_end(&here);
                     break;
                 }
             }
@@ -272,7 +272,7 @@ impl Lexer {
                         .expect("failed to get heredoc id for comparison"),
                     indent,
                 ) {
-                    heredoc_end = self.compute_heredoc_end();
+                    heredoc_end = self.compute_heredoc_end(&here);
 
                     break;
                 }
@@ -287,20 +287,16 @@ impl Lexer {
         Self::tSTRING_CONTENT
     }
 
-    fn compute_heredoc_end(&self) -> HeredocEnd {
+    fn compute_heredoc_end(&self, here: &HeredocLiteral) -> HeredocEnd {
         let start = self.buffer.pbeg;
-        let mut end_starts_at = start;
-        while self.buffer.byte_at(end_starts_at) == b' ' {
-            end_starts_at += 1;
-        }
-        let mut end = end_starts_at;
-        loop {
-            let c = self.buffer.byte_at(end);
-            if c.is_eof() || c == b'\n' {
-                break;
+        let mut end = self.buffer.pend;
+        if end > start && self.buffer.byte_at(end - 1) == b'\n' {
+            end -= 1;
+            if end > start && self.buffer.byte_at(end - 1) == b'\r' {
+                end -= 1;
             }
-            end += 1;
         }
+        let end_starts_at = start.max(end.saturating_sub(here.length));
         let value = self
             .buffer
             .substr_at(end_starts_at, end)
@@ -333,7 +329,7 @@ impl Lexer {
     }
 
     fn here_document_restore(&mut self, here: &HeredocLiteral) -> i32 {
-        let heredoc_end = self.compute_heredoc_end();
+        let heredoc_end = self.compute_heredoc_end(here);
         self.lval_start = Some(heredoc_end.start);
         self.lval_end = Some(heredoc_end.end);
         self.set_yylval_str(&TokenBuf::new(&heredoc_end.value));
-- 
2.43.0


From b3129d3faa86bdb453430621d216843a07dc8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:25 +0000
Subject: [PATCH 14/54] fix: do not panic on duplicate parameters with a
 non-ASCII name
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

def f(é, é) sliced the name inside its first character.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..a9f63b1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3885,7 +3885,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From eb2b713cc346b30864cf5b4dc21cad0324ee87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 15/54] fix: accept keyword parameters whose name has no case
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

def f(日:) was rejected as a constant.
---
 src/parser/parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..18d5f1c 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From 77d66bd929a2ec84d54fd717043f4e35eebdfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:34 +0000
Subject: [PATCH 16/54] fix: shorthand pairs whose name is not a constant
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

{_a:} and {日:} read a constant instead of a variable or method.
---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a9f63b1..5aa6dad 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -809,11 +809,11 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if label
+        let value = if !label
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
+            .is_uppercase()
         {
             Box::new(Node::Lvar(Lvar {
                 name: label,
-- 
2.43.0


From c8f5dbb8569590e2bf308cc680569e8d27051ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:37 +0000
Subject: [PATCH 17/54] fix: accept pattern variables whose name has no case
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

in 日 and in {日:} were rejected.
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5aa6dad..e1a34d5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3895,7 +3895,12 @@ impl Builder {
             .expect("local variable name can't be empty");
         let mut rest = all_chars;
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        let is_identchar = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
+        if is_identchar(first)
+            && !first.is_uppercase()
+            && !first.is_ascii_digit()
+            && rest.all(is_identchar)
+        {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-- 
2.43.0


From 69ba3993858501271c8f943f109ddb990f78443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:00 +0000
Subject: [PATCH 18/54] fix: treat the condition of a ternary as a condition

Regular expressions and ranges there match the current line and flip-flop, as in if.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index e1a34d5..c24c381 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2600,7 +2600,7 @@ impl Builder {
         let colon_l = self.loc(&colon_t);
 
         Box::new(Node::IfTernary(IfTernary {
-            cond,
+            cond: Self::check_condition(cond),
             if_true,
             if_false,
             question_l,
-- 
2.43.0


From a150f8c09c94a5f4abff6c405ff233cc1fa580d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 19/54] fix: keep parentheses that are the only statement of
 begin .. end

begin (a) end lost them.
---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c24c381..a6ca1f5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3139,7 +3139,12 @@ impl Builder {
         if let Some(body) = body {
             let body = *body;
             match body {
-                Node::Begin(Begin { statements, .. }) => {
+                Node::Begin(Begin {
+                    statements,
+                    begin_l: None,
+                    end_l: None,
+                    ..
+                }) => {
                     // Synthesized (begin) from compstmt "a; b".
                     Box::new(Node::KwBegin(KwBegin {
                         statements,
-- 
2.43.0


From c956088aef73ac58323b127fc633fb7469f2a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:07 +0000
Subject: [PATCH 20/54] fix: do not dedent text behind an interpolation in
 squiggly here-documents

Only what stands at the beginning of a line is indentation.
---
 src/builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a6ca1f5..1dd6b35 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,8 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // text behind an interpolation is not at the beginning of its line
+            let mut at_bol = true;
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +468,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if at_bol {
+                            Self::dedent_string(value, dedent_level)
+                        } else {
+                            value
+                        };
+                        at_bol = true;
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +490,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        at_bol = false;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From 5386f9ca85986e1eb837c0aa54029b2e886f1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:11 +0000
Subject: [PATCH 21/54] fix: removal of tabs from squiggly here-documents

A tab goes when it ends within the common indentation, not within the first eight columns.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 1dd6b35..966cf8c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -551,7 +551,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From 9d212185c1e595c63d888f0daca89d446ae32aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:33 +0000
Subject: [PATCH 22/54] fix: reject a block argument together with a block for
 super and []

As for any other call, super(&b) {} passes two blocks.
---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 966cf8c..27e1210 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2114,6 +2114,12 @@ impl Builder {
             Node::CSend(CSend { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Super(Super { args, .. }) => {
+                validate_block_and_block_arg(args)?;
+            }
+            Node::Index(Index { indexes, .. }) => {
+                validate_block_and_block_arg(indexes)?;
+            }
             _ => {}
         }
 
-- 
2.43.0


From 0a08de397c2995c1b681f5aa314fd5cdafcd3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 23/54] fix: ignore lines of white space only for the
 indentation of squiggly here-documents

Their white space was added to the indentation of the following line.
---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 020c67a..7230584 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -386,6 +386,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            // a line of white space only has no indentation
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From ebf111c3b62233bc33ddb2d509555bb0f239433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 24/54] fix: location of character literals with a unicode
 escape

That of ?\u0041 started behind the u.
---
 src/lexer/parse_qmark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_qmark.rs b/src/lexer/parse_qmark.rs
index 35bb1d6..20469f4 100644
--- a/src/lexer/parse_qmark.rs
+++ b/src/lexer/parse_qmark.rs
@@ -33,6 +33,7 @@ impl Lexer {
             return self.parse_qmark_ternary(c);
         }
         self.newtok();
+        let start = self.buffer.ptok;
 
         if !self.is_ascii() {
             if self.tokadd_mbchar(c).is_err() {
@@ -86,6 +87,8 @@ impl Lexer {
             self.tokadd(c);
         }
         self.tokfix();
+        // reading an escape may have moved ptok
+        self.lval_start = Some(start);
         let yylval = self.tokenbuf.take();
         self.set_yylval_str(&yylval);
         self.lex_state.set(EXPR_END);
-- 
2.43.0


From 8db2b31d71b1fdfdf4230e1d370dc9929cb97a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:07 +0000
Subject: [PATCH 25/54] fix: location of the newline behind a label and a
 comment

in a: # comment
The newline token was located at the comment.
---
 src/lexer/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 9b74f6a..b2ccc4a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -260,6 +260,11 @@ impl Lexer {
                         && !self.lex_state.is_some(EXPR_LABELED);
                     if cc || self.lex_state.is_all(EXPR_ARG | EXPR_LABELED) {
                         if !cc && self.context.in_kwarg() {
+                            if c == b'#' && self.buffer.byte_at(self.buffer.pcur - 1) == b'\n' {
+                                // the newline is behind the comment
+                                self.buffer.pushback(b'\n');
+                                self.buffer.set_ptok(self.buffer.pcur);
+                            }
                             return self.normal_newline_leaf_label();
                         }
                         continue 'retrying;
-- 
2.43.0


From 998380d625de0b09efbf162594ead3482edfd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:52 +0000
Subject: [PATCH 26/54] fix: report $- without a name behind it

---
 src/lexer/parse_gvar.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/parse_gvar.rs b/src/lexer/parse_gvar.rs
index bad12eb..3a05edb 100644
--- a/src/lexer/parse_gvar.rs
+++ b/src/lexer/parse_gvar.rs
@@ -54,8 +54,7 @@ impl Lexer {
                     if self.tokadd_mbchar(c).is_err() { return Self::END_OF_INPUT }
                 } else {
                     self.buffer.pushback(c);
-                    self.buffer.pushback(b'-');
-                    return Self::tCHAR;
+                    self.compile_error(DiagnosticMessage::InvalidGvarName { c: b'-' }, self.current_loc());
                 }
                 return Self::tGVAR;
             },
-- 
2.43.0


From 126e507f90f1b7674aef1a6dc2213572ad8dfd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 27/54] fix: scopes of definitions nested in a block are not
 dynamic

---
 src/builder.rs            | 4 ++--
 src/context.rs            | 4 ----
 src/max_numparam_stack.rs | 9 +++++++++
 src/parser/parse.y        | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 27e1210..b159f33 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3848,7 +3848,7 @@ impl Builder {
     }
 
     pub(crate) fn check_assignment_to_numparam(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-        let assigning_to_numparam = self.context.is_in_dynamic_block()
+        let assigning_to_numparam = self.max_numparam_stack.is_in_dynamic_scope()
             && matches!(
                 name,
                 "_1" | "_2" | "_3" | "_4" | "_5" | "_6" | "_7" | "_8" | "_9"
@@ -4266,7 +4266,7 @@ impl Builder {
             [b'_', n]
                 if (b'1'..=b'9').contains(&n)
                     && !self.static_env.is_declared(name)
-                    && self.context.is_in_dynamic_block() =>
+                    && self.max_numparam_stack.is_in_dynamic_scope() =>
             {
                 if true {
                     /* definitely an implicit param */
diff --git a/src/context.rs b/src/context.rs
index 8458fc6..0e3743d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -62,10 +62,6 @@ impl SharedContext {
         *self.value.borrow()
     }
 
-    pub(crate) fn is_in_dynamic_block(&self) -> bool {
-        self.in_block() || self.in_lambda()
-    }
-
     pub(crate) fn is_empty(&self) -> bool {
         self.value.borrow().is_empty()
     }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index cd36938..50d4ef9 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -37,6 +37,15 @@ impl MaxNumparamStack {
         self.top() > 0
     }
 
+    /// Returns `true` if the innermost scope is a block or a lambda
+    /// (i.e. `false` in a `def`/`class`/`module` even if it's nested in a block)
+    pub(crate) fn is_in_dynamic_scope(&self) -> bool {
+        match self.stack.borrow().last() {
+            Some(stack_item) => !stack_item.is_static,
+            None => false,
+        }
+    }
+
     pub(crate) fn register(&self, numparam: i32) {
         self.set(std::cmp::max(self.top(), numparam))
     }
diff --git a/src/parser/parse.y b/src/parser/parse.y
index 18d5f1c..074868d 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -3590,7 +3590,7 @@ use crate::Loc;
 
         k_return: kRETURN
                     {
-                        if self.context.in_class() && !self.context.in_def() && !(self.context.in_block() || self.context.in_lambda()) {
+                        if self.context.in_class() && !self.context.in_def() && !self.max_numparam_stack.is_in_dynamic_scope() {
                             return self.yyerror(@1, DiagnosticMessage::InvalidReturnInClassOrModuleBody {});
                         }
                         $$ = $1;
-- 
2.43.0


From a5c6b4487f9f52a3c350066e80428940b9db10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 28/54] fix: numbered parameters used in an outer or an inner
 block

---
 src/builder.rs            | 51 ++++++++++++---------------------------
 src/max_numparam_stack.rs | 33 ++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b159f33..89a03ad 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4264,47 +4264,28 @@ impl Builder {
     fn try_declare_numparam(&self, name: &str, loc: &Loc) -> bool {
         match name.as_bytes()[..] {
             [b'_', n]
-                if (b'1'..=b'9').contains(&n)
-                    && !self.static_env.is_declared(name)
-                    && self.max_numparam_stack.is_in_dynamic_scope() =>
+                if (b'1'..=b'9').contains(&n) && self.max_numparam_stack.is_in_dynamic_scope() =>
             {
-                if true {
-                    /* definitely an implicit param */
+                let is_declared = self.static_env.is_declared(name);
 
-                    if self.max_numparam_stack.has_ordinary_params() {
-                        self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
-                    }
-
-                    let mut raw_max_numparam_stack = self.max_numparam_stack.inner_clone();
+                if !is_declared && self.max_numparam_stack.has_ordinary_params() {
+                    self.error(DiagnosticMessage::OrdinaryParamDefined {}, loc);
+                }
 
-                    /* ignore current block scope */
-                    raw_max_numparam_stack.pop();
+                /* a numparam of an outer block is visible as a local variable,
+                so it has to be checked even if the name is declared */
+                if self.max_numparam_stack.is_used_in_other_block() {
+                    self.error(DiagnosticMessage::NumparamUsed {}, loc);
+                }
 
-                    for outer_scope in raw_max_numparam_stack.iter().rev() {
-                        if outer_scope.is_static {
-                            /* found an outer scope that can't have numparams
-                            like def/class/etc */
-                            break;
-                        } else {
-                            let outer_scope_has_numparams = outer_scope.value > 0;
-
-                            if outer_scope_has_numparams {
-                                self.error(DiagnosticMessage::NumparamUsed {}, loc);
-                            } else {
-                                /* for now it's ok, but an outer scope can also be a block
-                                like proc { _1; proc { proc { proc { _2 }} }}
-                                with numparams, so we need to continue */
-                            }
-                        }
-                    }
+                if is_declared {
+                    return false;
+                }
 
-                    self.static_env.declare(name);
-                    self.max_numparam_stack.register((n - b'0') as i32);
+                self.static_env.declare(name);
+                self.max_numparam_stack.register((n - b'0') as i32);
 
-                    true
-                } else {
-                    false
-                }
+                true
             }
             _ => false,
         }
diff --git a/src/max_numparam_stack.rs b/src/max_numparam_stack.rs
index 50d4ef9..d2f8e98 100644
--- a/src/max_numparam_stack.rs
+++ b/src/max_numparam_stack.rs
@@ -5,6 +5,8 @@ use std::rc::Rc;
 pub(crate) struct StackItem {
     pub(crate) value: i32,
     pub(crate) is_static: bool,
+    /// `true` if a block nested in this scope uses numparams
+    pub(crate) used_in_inner_block: bool,
 }
 
 #[derive(Debug, Clone, Default)]
@@ -62,11 +64,21 @@ impl MaxNumparamStack {
         self.stack.borrow_mut().push(StackItem {
             value: 0,
             is_static,
+            used_in_inner_block: false,
         })
     }
 
     pub(crate) fn pop(&self) {
-        self.stack.borrow_mut().pop();
+        let mut stack = self.stack.borrow_mut();
+        let popped = match stack.pop() {
+            Some(stack_item) => stack_item,
+            None => return,
+        };
+        if !popped.is_static && (popped.value > 0 || popped.used_in_inner_block) {
+            if let Some(outer) = stack.last_mut() {
+                outer.used_in_inner_block = true;
+            }
+        }
     }
 
     fn set(&self, value: i32) {
@@ -75,7 +87,22 @@ impl MaxNumparamStack {
         stack[len - 1].value = value;
     }
 
-    pub(crate) fn inner_clone(&self) -> Vec<StackItem> {
-        self.stack.borrow().clone()
+    /// Returns `true` if numparams are used either in an outer or in an inner block
+    /// of the current one, in this case the current block can't have them
+    pub(crate) fn is_used_in_other_block(&self) -> bool {
+        let stack = self.stack.borrow();
+        let (current, outer_scopes) = match stack.split_last() {
+            Some(split) => split,
+            None => return false,
+        };
+        if current.used_in_inner_block {
+            return true;
+        }
+        outer_scopes
+            .iter()
+            .rev()
+            /* def/class/etc can't have numparams and separates blocks from each other */
+            .take_while(|outer_scope| !outer_scope.is_static)
+            .any(|outer_scope| outer_scope.value > 0)
     }
 }
-- 
2.43.0


From d236ac978796750fbfb45f9064fb96c8b243cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:21 +0000
Subject: [PATCH 29/54] fix: allocate tokens of a Lexer that is used without a
 Parser

---
 src/lexer/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index b2ccc4a..a2caf86 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -82,6 +82,10 @@ pub struct Lexer {
 
     #[doc(hidden)]
     pub tokens_factory: PoolFactory<Token>,
+
+    /// Pool behind `tokens_factory`, used when Lexer is not driven by Parser
+    #[allow(dead_code)]
+    tokens_pool: Pool<Token>,
 }
 
 impl Lexer {
@@ -97,11 +101,15 @@ impl Lexer {
         Bytes: Into<Vec<u8>>,
         Name: Into<String>,
     {
+        let tokens_pool = Pool::new();
+
         Self {
             cond: StackState::new("cond"),
             cmdarg: StackState::new("cmdarg"),
             lpar_beg: -1, /* make lambda_beginning_p() == FALSE at first */
             buffer: Buffer::new(name.into(), bytes.into(), decoder),
+            tokens_factory: tokens_pool.factory(),
+            tokens_pool,
             ..Self::default()
         }
     }
-- 
2.43.0


From 0fe857d76f9b4d3e9c50bc2d2e55ea6786a11704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:13 +0000
Subject: [PATCH 30/54] fix: location of the end of an unterminated
 here-document

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 7230584..6cf344d 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -311,6 +311,8 @@ impl Lexer {
 
     fn here_document_error(&mut self, here: &HeredocLiteral, eos: usize, len: usize) -> i32 {
         self.heredoc_restore(here);
+        self.lval_start = None;
+        self.lval_end = None;
         self.compile_error(
             DiagnosticMessage::UnterminatedHeredoc {
                 heredoc_id: String::from_utf8_lossy(
-- 
2.43.0


From 0fb7bdfae2842dc3ebdd9911eeb0a238bcb6e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 31/54] fix: locations of unterminated unicode escapes at the
 end of the input

---
 src/lexer/parse_string.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 5cd5db9..917c05d 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -375,11 +375,16 @@ impl Lexer {
         // noop
     }
 
+    // position behind the current byte, if there is one
+    fn next_pos(&self) -> usize {
+        std::cmp::min(self.buffer.pcur + 1, self.buffer.input.len())
+    }
+
     fn tokadd_utf8_unterminated(&mut self) {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(self.buffer.ptok, self.next_pos()),
         );
     }
 
@@ -462,7 +467,7 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(self.buffer.pcur, self.next_pos()),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From 3e3c0e08e9b8bb1408082b8f97be61240e0262b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:20 +0000
Subject: [PATCH 32/54] fix: locations of an unterminated regular expression

---
 src/builder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 89a03ad..27a6cfb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -568,8 +568,8 @@ impl Builder {
     // Regular expressions
 
     pub(crate) fn regexp_options(&self, regexp_end_t: PoolValue<Token>) -> Option<Box<Node>> {
-        if regexp_end_t.loc.end - regexp_end_t.loc.begin == 1 {
-            // no regexp options, only trailing "/"
+        if regexp_end_t.loc.end - regexp_end_t.loc.begin <= 1 {
+            // no regexp options, only trailing "/" (or nothing if it's unterminated)
             return None;
         }
         let expression_l = self.loc(&regexp_end_t).adjust_begin(1);
@@ -597,7 +597,10 @@ impl Builder {
         options: Option<Box<Node>>,
     ) -> Box<Node> {
         let begin_l = self.loc(&begin_t);
-        let end_l = self.loc(&end_t).resize(1);
+        let mut end_l = self.loc(&end_t);
+        if !end_l.is_empty() {
+            end_l = end_l.resize(1);
+        }
         let expression_l =
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
-- 
2.43.0


From ffea59e5ca33a3ce1e8047c58174f95c5c483e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:24 +0000
Subject: [PATCH 33/54] fix: location of a missing body of a block with
 numbered parameters

---
 src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 27a6cfb..a25bd88 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2153,7 +2153,7 @@ impl Builder {
                         numargs,
                         body: block_body.unwrap_or_else(|| {
                             Box::new(Node::Nil(Nil {
-                                expression_l: Loc { begin: 0, end: 0 },
+                                expression_l: begin_l.with_begin(begin_l.end),
                             }))
                         }),
                         begin_l,
@@ -2192,7 +2192,7 @@ impl Builder {
                         numargs,
                         body: block_body.unwrap_or_else(|| {
                             Box::new(Node::Nil(Nil {
-                                expression_l: Loc { begin: 0, end: 0 },
+                                expression_l: begin_l.with_begin(begin_l.end),
                             }))
                         }),
                         begin_l,
-- 
2.43.0


From 01b9774a9afafe148abba2ef593f5d5998dd88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 34/54] fix: locations of newline and end tokens when the last
 line has no newline

---
 src/lexer/main.rs    | 3 ++-
 src/source/buffer.rs | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index a2caf86..3c6e219 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -156,7 +156,8 @@ impl Lexer {
 
         if token_type == Self::tNL {
             token_value = Bytes::new(vec![b'\n']);
-            end = begin + 1;
+            // there's no newline if it's the last line
+            end = std::cmp::min(begin + 1, self.buffer.input.len());
         }
 
         let token = self.tokens_factory.alloc(Token {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 51228b0..cb8bc54 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -309,9 +309,11 @@ impl Buffer {
         self.pbeg = self.input.line_at(self.lastline).start;
         self.pend = self.pbeg + self.input.line_at(self.lastline).len();
         self.pcur = self.pend;
-        let eofp = self.eofp;
-        self.pushback(1);
-        self.eofp = eofp;
+        if self.pend > self.pbeg && self.byte_at(self.pend - 1) == b'\n' {
+            let eofp = self.eofp;
+            self.pushback(1);
+            self.eofp = eofp;
+        }
         self.set_ptok(self.pcur);
     }
 
-- 
2.43.0


From e7a9a4b143f677763be6cda078d08cc419a7c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:44 +0000
Subject: [PATCH 35/54] fix: a malformed number no longer leaves its value to
 the next token

---
 src/lexer/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 3c6e219..5762427 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -787,6 +787,7 @@ impl Lexer {
                             MaybeByte::EndOfInput
                         };
                         self.parse_numeric(b'.');
+                        self.lval = None;
                         if prev.is_digit() {
                             self.yyerror0(DiagnosticMessage::FractionAfterNumeric {});
                         } else {
-- 
2.43.0


From 761207f1e19c0228dd4411d99f862e4978e876bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:57 +0000
Subject: [PATCH 36/54] fix: non-ASCII delimiters of % literals are reported

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index 49ccaf8..cdd094d 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -35,7 +35,7 @@ impl Lexer {
             *c = MaybeByte::new(b'Q');
         } else {
             term = self.nextc();
-            if term.is_alnum() {
+            if term.is_alnum() || !(term.is_eof() || term.is_ascii()) {
                 return self.percent_unknown(term);
             }
         }
-- 
2.43.0


From 44561fdfa5d234d98b04ad26d8eee1da2228abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 37/54] fix: a string behind a dropped squiggly here-document
 no longer panics

---
 src/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a25bd88..18a4ce1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -530,9 +530,8 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // a string behind a here-document that was dropped by error recovery
+            other => Box::new(other),
         }
     }
 
-- 
2.43.0


From a9da2d12323d5e773e98f577b7fcc27a5d9d5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:17 +0000
Subject: [PATCH 38/54] fix: here-documents on the first line of an input with
 a byte order mark

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 6cf344d..fa7f5be 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,8 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +84,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From 15ad9492da69e6222f9a5584c5a087bbab154daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:20 +0000
Subject: [PATCH 39/54] fix: location of the newline behind a label and a
 comment at the end of the input

---
 src/lexer/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 5762427..548ba25 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -269,9 +269,11 @@ impl Lexer {
                         && !self.lex_state.is_some(EXPR_LABELED);
                     if cc || self.lex_state.is_all(EXPR_ARG | EXPR_LABELED) {
                         if !cc && self.context.in_kwarg() {
-                            if c == b'#' && self.buffer.byte_at(self.buffer.pcur - 1) == b'\n' {
+                            if c == b'#' {
                                 // the newline is behind the comment
-                                self.buffer.pushback(b'\n');
+                                if self.buffer.byte_at(self.buffer.pcur - 1) == b'\n' {
+                                    self.buffer.pushback(b'\n');
+                                }
                                 self.buffer.set_ptok(self.buffer.pcur);
                             }
                             return self.normal_newline_leaf_label();
-- 
2.43.0


From bc11a291f85a70741bbb53831d60d34f240cd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:13 +0000
Subject: [PATCH 40/54] fix: a comment that is not UTF-8 no longer ends the
 program

---
 src/lexer/parse_magic_comment.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index c47ef9d..f037bc7 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,12 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 8b49d789e7715305520b45258f0508a49cdc6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 41/54] fix: no panic when a decoder makes the input shorter

---
 src/lexer/parse_magic_comment.rs | 4 ++--
 src/source/buffer.rs             | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index f037bc7..1136562 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -309,7 +309,7 @@ impl Lexer {
             name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name"),
+                    .unwrap_or_default(), // decoding may have made the input shorter
             )
             .into_owned();
 
@@ -320,7 +320,7 @@ impl Lexer {
                         let encoding = match String::from_utf8(
                             self.buffer
                                 .substr_at(vbeg, vend)
-                                .expect("bug: Can't be None")
+                                .unwrap_or_default()
                                 .to_vec(),
                         ) {
                             Ok(encoding) => encoding,
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index cb8bc54..2d8774e 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -329,9 +329,12 @@ impl Buffer {
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         self.input.set_encoding(encoding)?;
         // decoding may have changed the length of the current line
-        if let Some(line) = self.input.decoded.lines.get(self.lastline) {
-            self.pend = line.end;
-        }
+        self.pend = match self.input.decoded.lines.get(self.lastline) {
+            Some(line) => line.end,
+            None => self.input.len(),
+        };
+        self.pbeg = std::cmp::min(self.pbeg, self.pend);
+        self.ptok = std::cmp::min(self.ptok, self.pend);
         Ok(())
     }
 }
-- 
2.43.0


From 4d9e016a3397bfabba19c8c1a7a3308db9bc759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:16 +0000
Subject: [PATCH 42/54] fix: no warning for a block argument that is a symbol

---
 src/lexer/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 548ba25..61187cf 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -612,7 +612,7 @@ impl Lexer {
                         if c != b':'
                             || {
                                 c = self.buffer.peekc_n(1);
-                                !c.is_eof()
+                                c.is_eof()
                             }
                             || !(c == b'\''
                                 || c == b'"'
-- 
2.43.0


From 6e673ea66fed67d3c6c34921fa82a6acb40a973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 43/54] fix: name the % operator in its warning as it is
 written

---
 src/lexer/parse_percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_percent.rs b/src/lexer/parse_percent.rs
index cdd094d..733edcb 100644
--- a/src/lexer/parse_percent.rs
+++ b/src/lexer/parse_percent.rs
@@ -145,7 +145,7 @@ impl Lexer {
         self.buffer.pushback(c);
         self.warn_balanced(
             Self::tPERCENT,
-            "%%",
+            "%",
             "string literal",
             c,
             space_seen,
-- 
2.43.0


From 9854a3d856c5faaed5792c5a62847897097ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 44/54] fix: regexp keys with options can be duplicates

---
 src/builder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 18a4ce1..c218527 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -926,14 +926,33 @@ impl Builder {
                                 options: options2,
                                 ..
                             }),
-                        ) if options1 == options2 => {
-                            parts1.len() == parts2.len()
+                        ) => {
+                            let options_are_equal = match (options1, options2) {
+                                (None, None) => true,
+                                (Some(options1), Some(options2)) => {
+                                    keys_are_equal(options1, options2)
+                                }
+                                _ => false,
+                            };
+
+                            options_are_equal
+                                && parts1.len() == parts2.len()
                                 && parts1
                                     .iter()
                                     .zip(parts2.iter())
                                     .all(|(child1, child2)| keys_are_equal(child1, child2))
                         }
 
+                        // options of a regexp
+                        (
+                            Node::RegOpt(RegOpt {
+                                options: options1, ..
+                            }),
+                            Node::RegOpt(RegOpt {
+                                options: options2, ..
+                            }),
+                        ) if options1 == options2 => true,
+
                         _ => false,
                     }
                 }
-- 
2.43.0


From 7fd82fbab55c8c86bb561c5ea08a267ff066dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:32 +0000
Subject: [PATCH 45/54] fix: an invalid regexp with options is reported at the
 regexp

---
 src/builder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c218527..73f356d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -604,10 +604,9 @@ impl Builder {
             begin_l.join(&maybe_boxed_node_expr(&options).unwrap_or_else(|| self.loc(&end_t)));
 
         match options.as_deref() {
-            Some(Node::RegOpt(RegOpt {
-                options,
-                expression_l,
-            })) => self.validate_static_regexp(&parts, options, expression_l),
+            Some(Node::RegOpt(RegOpt { options, .. })) => {
+                self.validate_static_regexp(&parts, options, &expression_l)
+            }
             None => self.validate_static_regexp(&parts, &None, &expression_l),
             _ => unreachable!("must be Option<RegOpt>"),
         }
-- 
2.43.0


From 35820d70d7af9dd62cc90849de88469362c6b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:36 +0000
Subject: [PATCH 46/54] fix: valid regexps with characters outside ASCII are
 accepted with onig

---
 src/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 73f356d..65999fe 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4018,9 +4018,16 @@ impl Builder {
             }
         }
 
-        let bytes = onig::EncodedBytes::ascii(source.as_bytes());
+        let syntax = onig::Syntax::ruby();
 
-        match Regex::with_options_and_encoding(bytes, reg_options, onig::Syntax::ruby()) {
+        // Source is UTF-8, but a regexp may also spell bytes of any other encoding
+        let regex = Regex::with_options_and_encoding(source.as_str(), reg_options, syntax)
+            .or_else(|err| {
+                let bytes = onig::EncodedBytes::ascii(source.as_bytes());
+                Regex::with_options_and_encoding(bytes, reg_options, syntax).map_err(|_| err)
+            });
+
+        match regex {
             Ok(regex) => Some(regex),
             Err(err) => {
                 self.error(
-- 
2.43.0


From 4527660e3bdd36b9dd559a4f81bbf0091ddc7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 47/54] fix: the method names !@ and ~@ are ! and ~

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 61187cf..8257a1c 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -397,6 +397,7 @@ impl Lexer {
                     if self.lex_state.is_after_operator() {
                         self.lex_state.set(EXPR_ARG);
                         if c == b'@' {
+                            self.set_yylval_id("!");
                             return Self::tBANG;
                         }
                     } else {
@@ -948,6 +949,7 @@ impl Lexer {
                         if c != b'@' {
                             self.buffer.pushback(c);
                         }
+                        self.set_yylval_id("~");
                         self.lex_state.set(EXPR_ARG);
                     } else {
                         self.lex_state.set(EXPR_BEG);
-- 
2.43.0


From b3bd5fb7f255ddd5bc28891931818c62d0e42e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 48/54] fix: a second block met during error recovery does not
 panic

---
 src/builder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 65999fe..3be81e5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2128,6 +2128,17 @@ impl Builder {
                 self.error(DiagnosticMessage::BlockGivenToYield {}, keyword_l);
                 return Err(());
             }
+            Node::Block(_) | Node::Numblock(_) => {
+                // A command that already has a block can only get here
+                // while the parser recovers from an error.
+                self.error(
+                    DiagnosticMessage::UnexpectedToken {
+                        token_name: begin_t.token_name().to_string(),
+                    },
+                    &begin_t.loc,
+                );
+                return Err(());
+            }
             Node::Send(Send { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
-- 
2.43.0


From 0a48b75eca45ab234b5ffd68472d5969de535476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:03 +0000
Subject: [PATCH 49/54] fix: a pattern key that is an empty string is reported
 instead of panicking

---
 src/builder.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 3be81e5..f3e4c79 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3942,17 +3942,13 @@ impl Builder {
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
         let mut all_chars = name.chars();
-        let first = all_chars
-            .next()
-            .expect("local variable name can't be empty");
+        let first = all_chars.next();
         let mut rest = all_chars;
 
         let is_identchar = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
-        if is_identchar(first)
-            && !first.is_uppercase()
-            && !first.is_ascii_digit()
-            && rest.all(is_identchar)
-        {
+        let is_first_char =
+            |c: char| is_identchar(c) && !c.is_uppercase() && !c.is_ascii_digit();
+        if first.map_or(false, is_first_char) && rest.all(is_identchar) {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-- 
2.43.0


From a2aff0f9d17bbf396445d085d6b97238bc2026d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:29 +0000
Subject: [PATCH 50/54] fix: a pattern may not bind the name of a numbered
 parameter

---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index f3e4c79..99aac24 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3341,6 +3341,8 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
@@ -3358,6 +3360,8 @@ impl Builder {
         let name = value(name_t);
 
         self.check_lvar_name(name.as_str(), &name_l)?;
+        self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+        self.check_reserved_for_numparam(name.as_str(), &name_l)?;
         self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
         self.static_env.declare(name.as_str());
 
@@ -3393,6 +3397,8 @@ impl Builder {
                 let mut name_l = expression_l;
 
                 self.check_lvar_name(name.as_str(), &name_l)?;
+                self.check_assignment_to_numparam(name.as_str(), &name_l)?;
+                self.check_reserved_for_numparam(name.as_str(), &name_l)?;
                 self.check_duplicate_pattern_variable(name.as_str(), &name_l)?;
 
                 self.static_env.declare(name.as_str());
-- 
2.43.0


From 499a56725d1279b9f168b1d26a2f41c3d040d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:31 +0000
Subject: [PATCH 51/54] fix: a pattern may not match one key twice, with or
 without a value

---
 src/builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 99aac24..05d535c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3662,8 +3662,18 @@ impl Builder {
 
     pub(crate) fn match_label(&self, p_kw_label: PKwLabel) -> Result<Box<Node>, ()> {
         match p_kw_label {
-            PKwLabel::PlainLabel(label_t) => self.match_hash_var(label_t),
+            PKwLabel::PlainLabel(label_t) => {
+                self.check_duplicate_pattern_key(
+                    clone_value(&label_t).as_str(),
+                    &self.loc(&label_t),
+                )?;
+                self.match_hash_var(label_t)
+            }
             PKwLabel::QuotedLabel((begin_t, parts, end_t)) => {
+                if let Some(name) = Self::static_string(&parts) {
+                    let label_loc = self.loc(&begin_t).join(&self.loc(&end_t));
+                    self.check_duplicate_pattern_key(&name, &label_loc)?;
+                }
                 self.match_hash_var_from_str(begin_t, parts, end_t)
             }
         }
-- 
2.43.0


From 69d3eeccd705045d4e125b5f29cd00cad2073175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:11 +0000
Subject: [PATCH 52/54] fix: a one-line pattern match with => has no value

---
 src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 05d535c..35a8335 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -4235,8 +4235,10 @@ impl Builder {
                 Some(node)
             }
 
-            Node::MatchPattern(MatchPattern { value, .. })
-            | Node::MatchPatternP(MatchPatternP { value, .. }) => Self::void_value(value),
+            // "value => pattern" has no value (unlike "value in pattern")
+            Node::MatchPattern(_) => Some(node),
+
+            Node::MatchPatternP(MatchPatternP { value, .. }) => Self::void_value(value),
 
             Node::Begin(Begin { statements, .. }) | Node::KwBegin(KwBegin { statements, .. }) => {
                 check_stmts(statements)
-- 
2.43.0


From 9ba85fa646ec7bb434d99e9fd4d9690f013c2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:42 +0000
Subject: [PATCH 53/54] fix: any white space may stand before the terminator of
 a here-document

---
 src/source/buffer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 2d8774e..9e10e28 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -265,10 +265,7 @@ impl Buffer {
         let len = eos.len();
 
         if indent > 0 {
-            while let Some(c) = self.input.byte_at(ptr) {
-                if !c.is_ascii_whitespace() {
-                    break;
-                }
+            while ptr < self.pend && self.byte_at(ptr).is_space() {
                 ptr += 1;
             }
         }
-- 
2.43.0


From 968319eed406dc0115fbb7ae1a42ee1b8c4e4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:44 +0000
Subject: [PATCH 54/54] fix: a vertical tab at the end of a line is white space

---
 src/source/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 9e10e28..a16f82d 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -252,7 +252,7 @@ impl Buffer {
             ptr += 1;
             if let Some(c) = c {
                 let eol = c == b'\n' || c == b'#';
-                if eol || !c.is_ascii_whitespace() {
+                if eol || !MaybeByte::new(c).is_space() {
                     return eol;
                 }
             };
-- 
2.43.0

