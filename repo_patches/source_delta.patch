From 56c2fc26f42d77145712c63c329ccf012a190ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:35 +0000
Subject: [PATCH 01/19] fix: allocate tokens from an own pool in
 Lexer::tokenize_until_eof

Lexer::new leaves tokens_factory without a pool, so tokenizing with a
standalone lexer dereferenced a null pointer inside alloc-from-pool.
---
 src/lexer/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..24b3891 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -116,6 +116,10 @@ impl Lexer {
     pub fn tokenize_until_eof(&mut self) -> Vec<Token> {
         let mut tokens = vec![];
 
+        // `Lexer::new` doesn't have a pool to allocate from (it's normally provided by the parser)
+        let pool = Pool::new();
+        let tokens_factory = std::mem::replace(&mut self.tokens_factory, pool.factory());
+
         loop {
             let token = self.yylex().take_value();
             match token.token_type {
@@ -124,6 +128,8 @@ impl Lexer {
             }
         }
 
+        self.tokens_factory = tokens_factory;
+
         tokens
     }
 
-- 
2.43.0


From 54a320c0d6b06a097edf5e91193ab110a2d178a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 02/19] fix: don't strip more than heredoc indent when a line
 starts with a tab

A tab must be removed only if it fits into the indentation that is removed
from every line, no matter how wide a tab is.
---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..2370d97 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -541,7 +541,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From dd6dacacf9853ebd18b47afaa0d62b8502573fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 03/19] fix: don't dedent squiggly heredoc content that follows
 interpolation

---
 src/builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 2370d97..f2698e5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,8 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // string that follows interpolation doesn't start with an indentation
+            let mut bol = true;
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +468,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if bol {
+                            Self::dedent_string(value, dedent_level)
+                        } else {
+                            value
+                        };
+                        bol = true;
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +490,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        bol = false;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From f85afe2b11e83eee6a813cb73a7fadf0216ac0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:15 +0000
Subject: [PATCH 04/19] fix: don't panic on a string that goes after an
 unterminated squiggly heredoc

---
 src/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f2698e5..f107deb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -530,9 +530,9 @@ impl Builder {
                     expression_l,
                 }))
             }
-            _ => {
-                unreachable!("unsupported heredoc_dedent argument {}", node.str_type())
-            }
+            // can be reached if heredoc was not closed properly,
+            // its indentation has nothing to do with this string
+            other => Box::new(other),
         }
     }
 
-- 
2.43.0


From 434cb43061d0ed6d5092f3b99abd0484802a4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:42 +0000
Subject: [PATCH 05/19] fix: keep sign in front of the leading zero in numeric
 literals

`+0x1F` was emitted with a value `0+x1F`, `+017` with `0+17`.
---
 src/lexer/parse_numeric.rs | 8 ++------
 src/token_buf.rs           | 6 ------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..914b172 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -26,6 +26,7 @@ impl Lexer {
             c = self.nextc();
         }
         if c == b'0' {
+            self.tokadd(c);
             let start = self.toklen();
             c = self.nextc();
             if c == b'x' || c == b'X' {
@@ -67,7 +68,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +150,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -179,13 +177,12 @@ impl Lexer {
             if c > b'7' && c <= b'9' {
                 self.invalid_octal();
             } else if c == b'.' || c == b'e' || c == b'E' {
-                self.tokadd(b'0');
+                // part of a float, leading zero has been added already
             } else {
                 self.buffer.pushback(c);
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
 
                 let mut tok = self.tokenbuf.take();
-                tok.push(b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
         }
@@ -304,7 +301,6 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..a6bab32 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,12 +26,6 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
-        self.bytes.set_raw(tmp);
-    }
-
     pub(crate) fn borrow_string(&self) -> Result<&str, &[u8]> {
         match std::str::from_utf8(self.bytes.as_raw()) {
             Ok(s) => Ok(s),
-- 
2.43.0


From b03c3683df53067ca77ae7d5b54da7cd98472026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:42 +0000
Subject: [PATCH 06/19] fix: don't include trailing `e` to the location of a
 number at the end of file

---
 src/lexer/parse_numeric.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 914b172..c6f79c0 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -229,8 +229,8 @@ impl Lexer {
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
-                        nondigit = None;
-                        return self.decode_num(c, nondigit, is_float, seen_e);
+                        c = nondigit.expect("nondigit must be set");
+                        return self.decode_num(c, None, is_float, seen_e);
                     }
                     self.tokadd(nondigit.expect("nondigit must be set"));
                     seen_e = true;
-- 
2.43.0


From 3ede49ccc1567c478dbb057861214351bac2b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:08 +0000
Subject: [PATCH 07/19] fix: keep heredoc tokens inside of the input

---
 src/lexer/parse_heredoc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 92f2391..a482a89 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -240,7 +240,7 @@ impl Lexer {
                         return self.here_document_restore(&here);
                     }
                 }
-                self.lval_end = Some(self.buffer.pcur + 1);
+                self.lval_end = Some(std::cmp::min(self.buffer.pcur + 1, self.buffer.pend));
                 if c != b'\n' {
                     if c == b'\\' {
                         self.buffer.heredoc_line_indent = -1
@@ -319,6 +319,9 @@ impl Lexer {
             self.current_loc(),
         );
         self.token_flush();
+        // there's no closing identifier, so there's nothing to point to
+        self.lval_start = None;
+        self.lval_end = None;
         self.strterm = None;
         self.lex_state.set(EXPR_END);
         Self::tSTRING_END
-- 
2.43.0


From 254fe1c6d2c86abc9141633f583f0c5db0f1e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:11 +0000
Subject: [PATCH 08/19] fix: don't report errors in unicode escapes past the
 end of input

---
 src/lexer/parse_string.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..cd1ff47 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -380,7 +380,10 @@ impl Lexer {
         self.token_flush();
         self.yyerror1(
             DiagnosticMessage::UnterminatedUnicodeEscape {},
-            self.loc(self.buffer.ptok, self.buffer.pcur + 1),
+            self.loc(
+                self.buffer.ptok,
+                std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+            ),
         );
     }
 
@@ -463,7 +466,10 @@ impl Lexer {
         } {
             self.yyerror1(
                 DiagnosticMessage::InvalidUnicodeEscape {},
-                self.loc(self.buffer.pcur, self.buffer.pcur + 1),
+                self.loc(
+                    self.buffer.pcur,
+                    std::cmp::min(self.buffer.pcur + 1, self.buffer.pend),
+                ),
             );
             return wide && numlen > 0;
         }
-- 
2.43.0


From 606bd66e0332cfdb307ba38bc41a81c79cf07fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:46 +0000
Subject: [PATCH 09/19] fix: keep source bytes if encoding is not supported

---
 src/source/decoded_input.rs | 4 ----
 src/source/input.rs         | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/source/decoded_input.rs b/src/source/decoded_input.rs
index 2889130..9beca55 100644
--- a/src/source/decoded_input.rs
+++ b/src/source/decoded_input.rs
@@ -31,10 +31,6 @@ impl DecodedInput {
         self.bytes
     }
 
-    pub(crate) fn take_bytes(&mut self) -> Vec<u8> {
-        std::mem::take(&mut self.bytes)
-    }
-
     /// Populates `Input` with a given byte array
     pub fn update_bytes(&mut self, bytes: Vec<u8>) {
         let mut line = SourceLine {
diff --git a/src/source/input.rs b/src/source/input.rs
index a124351..0fb942b 100644
--- a/src/source/input.rs
+++ b/src/source/input.rs
@@ -64,7 +64,7 @@ impl Input {
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
         let new_input = decode_input(
-            self.decoded.take_bytes(),
+            self.decoded.as_shared_bytes().to_vec(),
             String::from(encoding),
             &mut self.decoder,
         )
-- 
2.43.0


From 6ebaecacd3bde43fb91b33da857edca788675a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:19 +0000
Subject: [PATCH 10/19] fix: read the rest of the file after decoding changes
 length of the first line

---
 src/lexer/parse_magic_comment.rs | 12 +++++-------
 src/source/buffer.rs             | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..7152b80 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,11 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
-                self.buffer
-                    .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
-            )
-            .map_err(|_| ())?;
+            name = match self.buffer.substr_at(beg, beg + n) {
+                Some(name) => String::from_utf8(name.to_vec()).map_err(|_| ())?,
+                // the rest of the comment has been removed by a decoder
+                None => return Ok(true),
+            };
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 7cd46c5..2036eb5 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -323,7 +323,21 @@ impl Buffer {
     }
 
     pub(crate) fn set_encoding(&mut self, encoding: &str) -> Result<(), InputError> {
-        self.input.set_encoding(encoding)
+        let old_start = self.input.line_at(self.lastline).start;
+        self.input.set_encoding(encoding)?;
+
+        // Decoding can change the length of any line,
+        // and so all offsets on the current line have to be moved
+        self.line_count = std::cmp::min(self.line_count, self.input.lines_count());
+        self.lastline = std::cmp::min(self.lastline, self.input.lines_count() - 1);
+        let line = self.input.line_at(self.lastline);
+        let relocate = |pos: usize| std::cmp::min(pos - old_start + line.start, line.end);
+        self.pbeg = relocate(self.pbeg);
+        self.pcur = relocate(self.pcur);
+        self.ptok = relocate(self.ptok);
+        self.pend = line.end;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 4d6eb3f083255ff6a1727eb466d001187aab5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:22 +0000
Subject: [PATCH 11/19] fix: read "\8" and "\9" as "8" and "9"

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index cd1ff47..7a312ae 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -669,7 +669,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From 6927b35d5fb535429c9cb879005532019c4a598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 12/19] fix: write control and meta escapes in regexps using 2
 hex digits

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 7a312ae..fd0bb02 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -324,7 +324,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From 73d2c88f2be93c34373aee9e090ccb5994afebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:41 +0000
Subject: [PATCH 13/19] fix: don't duplicate a backslash in front of multibyte
 chars in non-interpolated strings

---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index fd0bb02..243ec86 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 09865b3b6efaa239500103a35e0845eeecaf84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:13 +0000
Subject: [PATCH 14/19] fix: find heredoc identifier on the line that starts
 with a byte order mark

---
 src/lexer/parse_heredoc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index a482a89..9156cbd 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -14,7 +14,8 @@ impl Lexer {
          * term_len is length of `<<"END"` except `END`,
          * in this case term_len is 4 (<, <, " and ").
          */
-        let mut offset = self.buffer.pcur - self.buffer.pbeg;
+        let line_start = self.buffer.input.line_at(self.buffer.lastline).start;
+        let mut offset = self.buffer.pcur - line_start;
         let mut c = self.nextc();
         let term;
         let mut func = 0;
@@ -83,7 +84,7 @@ impl Lexer {
             self.buffer.pushback(c);
         }
 
-        let len = self.buffer.pcur - (self.buffer.pbeg + offset) - quote;
+        let len = self.buffer.pcur - (line_start + offset) - quote;
 
         let id = self
             .buffer
-- 
2.43.0


From 384f2f44f2589840aa6c7bd04c9c0616cf57e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:18 +0000
Subject: [PATCH 15/19] fix: treat a carriage return in the middle of a line as
 a space

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index 24b3891..c185eb5 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -231,6 +231,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0


From 0179d2eb5d85effa3869764053a18af195a3cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:42 +0000
Subject: [PATCH 16/19] fix: whitespace-only lines don't add up to the
 indentation of the next line of a squiggly heredoc

---
 src/lexer/parse_heredoc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index 9156cbd..d26184e 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -386,6 +386,9 @@ impl Lexer {
                 self.buffer.heredoc_indent = self.buffer.heredoc_line_indent
             }
             self.buffer.heredoc_line_indent = -1;
+        } else {
+            /* whitespace-only line has no indentation */
+            self.buffer.heredoc_line_indent = 0;
         }
         true
     }
-- 
2.43.0


From edbdd6f6bd9c4978032df115e83cc40bd2b67d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:17 +0000
Subject: [PATCH 17/19] fix: strip carriage return of CRLF lines in
 non-interpolated heredocs

---
 src/lexer/parse_heredoc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/parse_heredoc.rs b/src/lexer/parse_heredoc.rs
index d26184e..b5c5624 100644
--- a/src/lexer/parse_heredoc.rs
+++ b/src/lexer/parse_heredoc.rs
@@ -164,6 +164,8 @@ impl Lexer {
                                 || self.buffer.input.unchecked_byte_at(ptr_end - 1) != b'\r'
                             {
                                 ptr_end += 1;
+                            } else {
+                                ptr_end -= 1;
                             }
                         }
                         b'\r' => {
-- 
2.43.0


From 61cbb3242b620907ac4de2f95236317218b63244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:26 +0000
Subject: [PATCH 18/19] fix: don't skip whitespace past the end of line when
 looking for a heredoc terminator

---
 src/source/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/buffer.rs b/src/source/buffer.rs
index 2036eb5..650df60 100644
--- a/src/source/buffer.rs
+++ b/src/source/buffer.rs
@@ -266,7 +266,7 @@ impl Buffer {
 
         if indent > 0 {
             while let Some(c) = self.input.byte_at(ptr) {
-                if !c.is_ascii_whitespace() {
+                if ptr >= self.pend || !c.is_ascii_whitespace() {
                     break;
                 }
                 ptr += 1;
-- 
2.43.0


From baf5572e9d38647165ce99f8d7e8e3b5dcd7b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:56 +0000
Subject: [PATCH 19/19] fix: a comment key that is not valid UTF-8 no longer
 ends the input silently

---
 src/lexer/parse_magic_comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 7152b80..2416bd1 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -307,7 +307,7 @@ impl Lexer {
 
             let n = end - beg;
             name = match self.buffer.substr_at(beg, beg + n) {
-                Some(name) => String::from_utf8(name.to_vec()).map_err(|_| ())?,
+                Some(name) => String::from_utf8_lossy(name).into_owned(),
                 // the rest of the comment has been removed by a decoder
                 None => return Ok(true),
             };
-- 
2.43.0

