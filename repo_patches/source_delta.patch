From a76fc735a880d3a8ad12260635386a9b9bc81a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 01/22] fix: tokenizer rewinds to the right place after a
 dedent

A line that closes a block was re-read from index - indentation, which is
wrong (and can be inside a character) when the skipped text contains a
backslash continuation or a comment.
---
 crates/parsa_python/src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..0ae33ce 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -464,6 +464,7 @@ impl Iterator for PythonTokenizer<'_> {
             return Some(token);
         }
 
+        let before_whitespace = self.index;
         let indentation = self.skip_whitespace();
 
         let start = self.index;
@@ -480,7 +481,9 @@ impl Iterator for PythonTokenizer<'_> {
                     self.previous_token_was_newline = false;
                     return self.new_tok(start, false, TerminalType::Indent);
                 } else if let Some(token) = self.dedent_if_necessary(indentation) {
-                    self.index -= indentation;
+                    // The whitespace is skipped again for the next token. It may contain comments and
+                    // backslash continuations, so its length is not the indentation.
+                    self.index = before_whitespace;
                     return Some(token);
                 }
             }
-- 
2.43.0


From c35cb3378ff33aac0afd2d1db35e131f47371b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 02/22] fix: tokenizer no longer recurses per line break

Line breaks inside brackets and backslash continuations were skipped
recursively, so a long run of them overflowed the stack.
---
 crates/parsa_python/src/tokenizer.rs | 30 ++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 0ae33ce..e37dc54 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -387,6 +387,18 @@ impl PythonTokenizer<'_> {
 
     #[inline]
     fn skip_whitespace(&mut self) -> usize {
+        let mut is_continuation = false;
+        let indentation = self.skip_whitespace_until_continuation(&mut is_continuation);
+        while is_continuation {
+            // The indentation after a continuation does not matter.
+            is_continuation = false;
+            self.skip_whitespace_until_continuation(&mut is_continuation);
+        }
+        indentation
+    }
+
+    #[inline]
+    fn skip_whitespace_until_continuation(&mut self, is_continuation: &mut bool) -> usize {
         let mut indentation = 0;
         let mut was_comment = false;
         let iterator = code_from_start(self.code, self.index).chars();
@@ -428,7 +440,7 @@ impl PythonTokenizer<'_> {
                         return indentation;
                     }
                     self.index += 1;
-                    self.skip_whitespace();
+                    *is_continuation = true;
                     return indentation;
                 } else {
                     break;
@@ -455,6 +467,19 @@ impl PythonTokenizer<'_> {
 impl Iterator for PythonTokenizer<'_> {
     type Item = PyTerminal;
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            // Not recursive, because the number of line breaks in brackets is not limited.
+            let mut is_line_break_in_brackets = false;
+            let token = self.next_token(&mut is_line_break_in_brackets);
+            if !is_line_break_in_brackets {
+                return token;
+            }
+        }
+    }
+}
+
+impl PythonTokenizer<'_> {
+    fn next_token(&mut self, is_line_break_in_brackets: &mut bool) -> Option<PyTerminal> {
         if self.ended {
             return None;
         }
@@ -576,7 +601,8 @@ impl Iterator for PythonTokenizer<'_> {
                 self.previous_token_was_newline = true;
                 return self.new_tok(start, false, TerminalType::Newline);
             } else {
-                return self.next();
+                *is_line_break_in_brackets = true;
+                return None;
             }
         }
 
-- 
2.43.0


From 33dac7a3552cc8d601446b8a355461e65d387abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 03/22] fix: text before a zero-length node is no longer
 reported as empty

prefix_to_previous_leaf compared ancestors with the end of the node, which
for a zero-length node (Indent, Dedent, Endmarker) stopped at its parent.
---
 crates/parsa/src/lib.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 723feeb..362f65d 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -176,13 +176,6 @@ macro_rules! __create_node {
                         start = node.start_index + node.length;
                         break
                     }
-                    if node.start_index >= self.internal_node.start_index + self.internal_node.length {
-                        let start = self.internal_node.start_index + self.internal_node.length;
-                        return self.code_slice(
-                            start,
-                            node.start_index,
-                        );
-                    }
                 }
                 self.code_slice(start, self.internal_node.start_index)
             }
-- 
2.43.0


From c142daf767790df8597b1a5503513d9886354f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 04/22] fix: a token that fails a negative lookahead is no
 longer lost

Without another alternative to replay, e.g. '(():=', the token was in no
leaf of the tree.
---
 crates/parsa/src/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 59f629a..8f7ace4 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -240,6 +240,10 @@ impl<'a, T: Token> Grammar<T> {
                     if plan.mode == PlanMode::PositivePeek {
                         let tos_mut = stack.tos_mut();
                         tos_mut.dfa_state = plan.next_dfa();
+                    } else if plan.next_dfa().is_negative_lookahead() {
+                        // The lookahead failed. This state accepts nothing, so the next iteration
+                        // does error recovery with this token, which would be lost otherwise.
+                        stack.tos_mut().dfa_state = plan.next_dfa();
                     } else {
                         self.apply_plan(stack, plan, token, backtracking_tokenizer);
                         break;
-- 
2.43.0


From 2032e527f0b50c8819c5b71b3a606b6d00d20817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 05/22] fix: link the sibling after a reused nonterminal

When a fallback alternative reused the first nonterminal of the failed one,
the nodes parsed after it were not reachable as its siblings
('match x:\n case _:\n').
---
 crates/parsa/src/grammar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 8f7ace4..d7b50c8 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -365,6 +365,10 @@ impl<'a, T: Token> Grammar<T> {
                         let tos_mut = stack.tos_mut();
                         tos_mut.mode = alternative;
                         tos_mut.dfa_state = fallback_plan.next_dfa();
+                        // The reused nonterminal is the latest child now, not one of the children
+                        // that the failed alternative added after it.
+                        tos_mut.children_count = backtracking.children_count + 1;
+                        tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
                         // Make sure the tree nodes have the right size to overwrite them later.
                         // It doesn't matter where we insert/remove, everything should be
@@ -417,7 +421,7 @@ impl<'a, T: Token> Grammar<T> {
                                             tree_node_count: tree_node_index,
                                             token_index: backtracking.token_index,
                                             replay_plan: unsafe { &**replay },
-                                            children_count: 1,
+                                            children_count: 0,
                                         },
                                         fallback_plan: unsafe { &**fallback },
                                         reusable_first_nonterminal,
-- 
2.43.0


From 140cd24b795a80292adc1b2d920263f1798852e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 06/22] fix: keep the number of children when backtracking

Replaying an alternative forgot the children before it, and falling back
added the wrapping node a second time, so nodes that may be omitted got a
wrong extent or a duplicate wrapper ('for x(2)', '*[]=s').
---
 crates/parsa/src/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index d7b50c8..d88341c 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -245,7 +245,7 @@ impl<'a, T: Token> Grammar<T> {
                         // does error recovery with this token, which would be lost otherwise.
                         stack.tos_mut().dfa_state = plan.next_dfa();
                     } else {
-                        self.apply_plan(stack, plan, token, backtracking_tokenizer);
+                        self.apply_plan(stack, plan, token, backtracking_tokenizer, false);
                         break;
                     }
                 }
@@ -435,7 +435,7 @@ impl<'a, T: Token> Grammar<T> {
                     } else {
                         let t = reset(backtracking, stack, backtracking_tokenizer);
                         stack.tos_mut().mode = alternative;
-                        self.apply_plan(stack, fallback_plan, &t, backtracking_tokenizer);
+                        self.apply_plan(stack, fallback_plan, &t, backtracking_tokenizer, true);
                         // The token was not used, but the tokenizer backtracked.
                     }
                     return; // Error Recovery done.
@@ -464,12 +464,13 @@ impl<'a, T: Token> Grammar<T> {
                         let t = reset(backtracking, stack, backtracking_tokenizer);
                         // Pop the LastAlternative that is still on the stack.
                         stack.stack_nodes.pop();
-                        stack.tos_mut().children_count = 0;
+                        stack.tos_mut().children_count = backtracking.children_count;
                         self.apply_plan(
                             stack,
                             backtracking.replay_plan,
                             &t,
                             backtracking_tokenizer,
+                            true,
                         );
                         if !stack.tos().enabled_token_recording {
                             backtracking_tokenizer.stop();
@@ -520,6 +521,7 @@ impl<'a, T: Token> Grammar<T> {
         plan: &'a Plan,
         token: &T,
         backtracking_tokenizer: &mut BacktrackingTokenizer<T, I>,
+        is_backtracking: bool,
     ) {
         let tos_mut = stack.stack_nodes.last_mut().unwrap();
         tos_mut.dfa_state = plan.next_dfa();
@@ -531,6 +533,8 @@ impl<'a, T: Token> Grammar<T> {
         if tos_mut.dfa_state.node_may_be_omitted
             && plan.mode != PlanMode::LeftRecursive
             && tos_mut.children_count == 1
+            // When backtracking, the node was already added before the first alternative.
+            && !is_backtracking
         {
             tos_mut.children_count = 1;
             tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
-- 
2.43.0


From 6d77f326a0930e6748454d7b6fed47ae37f8acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:14 +0000
Subject: [PATCH 07/22] fix: malformed hexadecimal escapes keep their
 characters

'\x' without enough hexadecimal digits swallowed the characters after it,
decoded to an arbitrary character at the end of a literal, and panicked in
bytes literals and next to multi-byte characters.
---
 crates/parsa_python_cst/src/bytes.rs   |  8 +++++-
 crates/parsa_python_cst/src/strings.rs | 34 +++++++++++++-------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..2ad296b 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -28,9 +28,15 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, &inner_bytes[next_index + 1..]) {
+                        iterator.next();
+                        iterator.next();
                         s.push(c as u8);
                         previous_insert += 2;
+                    } else {
+                        // Invalid in Python, keep it as it is
+                        s.push(b'\\');
+                        s.push(ch);
                     }
                 }
                 b'a' => s.push(b'\x07'), // Bell
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..7c42db2 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -66,19 +66,22 @@ impl<'db> PythonString<'db> {
                                 iterator.next();
                             }
                         }
-                        b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
-                                s.push(c)
-                            }
-                        }
-                        b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
-                                s.push(c)
-                            }
-                        }
-                        b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                        b'x' | b'u' | b'U' => {
+                            let digit_count = match ch {
+                                b'x' => 2,
+                                b'u' => 4,
+                                _ => 8,
+                            };
+                            let after = &inner.as_bytes()[next_index + 1..];
+                            if let Some(c) = parse_hex(digit_count, after) {
+                                for _ in 0..digit_count {
+                                    iterator.next();
+                                }
                                 s.push(c)
+                            } else {
+                                // Invalid in Python (or a surrogate), keep it as it is
+                                s.push('\\');
+                                s.push(*ch as char);
                             }
                         }
                         b'N' => {
@@ -199,12 +202,9 @@ impl<'db> PythonString<'db> {
     }
 }
 
-pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
-    count: usize,
-    iterator: I,
-) -> Option<char> {
+pub(crate) fn parse_hex(count: usize, code: &[u8]) -> Option<char> {
     let mut number = 0;
-    for (i, (_, x)) in iterator.take(count).enumerate() {
+    for (i, x) in code.get(..count)?.iter().enumerate() {
         let digit = if x.is_ascii_digit() {
             *x - b'0'
         } else if (b'a'..=b'f').contains(x) {
-- 
2.43.0


From 3e6aead8398bbcd7c52ec5fda0bdeeda2dfcc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 08/22] fix: bytes literals normalise carriage returns like
 Python

---
 crates/parsa_python_cst/src/bytes.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 2ad296b..587d1db 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -9,6 +9,11 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let unpacked = unpack_string_or_bytes_content(code);
     let inner_bytes = unpacked.inner.as_bytes();
     if unpacked.had_raw_modifier {
+        if inner_bytes.contains(&b'\r') {
+            // Like in strings, Python never sees carriage returns as line endings
+            let normalized = unpacked.inner.replace("\r\n", "\n").replace('\r', "\n");
+            return Cow::Owned(normalized.into_bytes());
+        }
         return Cow::Borrowed(inner_bytes);
     }
     let mut iterator = inner_bytes.iter().enumerate();
@@ -27,6 +32,13 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
             match ch {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
+                b'\r' => {
+                    // Escaping a carriage return ignores it and maybe also the next newline
+                    if inner_bytes.get(previous_insert) == Some(&b'\n') {
+                        iterator.next();
+                        previous_insert += 1;
+                    }
+                }
                 b'x' => {
                     if let Some(c) = parse_hex(2, &inner_bytes[next_index + 1..]) {
                         iterator.next();
@@ -61,6 +73,14 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                     }
                 }
             }
+        } else if ch == &b'\r' {
+            // \r\n and a lone \r are both \n in Python
+            let s = out.get_or_insert_with(|| Vec::with_capacity(inner_bytes.len()));
+            s.extend_from_slice(&inner_bytes[previous_insert..i]);
+            previous_insert = i + 1;
+            if inner_bytes.get(previous_insert) != Some(&b'\n') {
+                s.push(b'\n');
+            }
         }
     }
     if let Some(mut out) = out {
-- 
2.43.0


From 5367d95b58102853ae6f9ae88453b2e680fba177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:30 +0000
Subject: [PATCH 09/22] fix: selection ranges never shrink around an indented
 statement

---
 crates/parsa_python_cst/src/ranges.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index 3f50797..14b2b3f 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -135,6 +135,14 @@ impl Iterator for SelectionRanges<'_> {
                 range.start -= before_node_code.len() as CodeIndex - prefix_n as CodeIndex - 1;
             }
         }
+        if let Some(previous) = self.previous {
+            // A statement may have been extended to the start of its line, which must not make it
+            // bigger than the nodes around it.
+            range.start = range.start.min(previous.start);
+            if previous == range {
+                return self.next();
+            }
+        }
         match node.type_() {
             PyNodeType::Terminal(
                 TerminalType::Operator
-- 
2.43.0


From 7a1671c30549e5f95b7d02f02bda377450878fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:30 +0000
Subject: [PATCH 10/22] fix: dedent counts indentation in characters

---
 crates/utils/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..484b670 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -242,7 +242,9 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     let lines: &Vec<_> = &s.split('\n').collect();
     for line in lines {
         if !line.trim().is_empty() {
-            indent = std::cmp::min(indent, line.len() - line.trim_start().len());
+            // Count characters, because whitespace might be more than one byte long
+            let line_indent = line.chars().take_while(|c| c.is_whitespace()).count();
+            indent = std::cmp::min(indent, line_indent);
         }
     }
     if indent == usize::MAX {
@@ -250,12 +252,10 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     }
     let new_lines: Vec<_> = lines
         .iter()
-        .map(|line| {
-            if line.len() >= indent {
-                &line[indent..]
-            } else {
-                line
-            }
+        .map(|line| match line.char_indices().nth(indent) {
+            Some((index, _)) => &line[index..],
+            None if line.chars().count() == indent => "",
+            None => line,
         })
         .collect();
     Cow::Owned(new_lines.join("\n"))
-- 
2.43.0


From 36ef51dead9b29ee52124c9dc1a81c1a8da26cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:55 +0000
Subject: [PATCH 11/22] fix: end of line after characters outside the BMP is
 not out of bounds

---
 crates/zuban_python/src/lines.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/lines.rs b/crates/zuban_python/src/lines.rs
index fa3f16e..4c0f1f3 100644
--- a/crates/zuban_python/src/lines.rs
+++ b/crates/zuban_python/src/lines.rs
@@ -199,9 +199,7 @@ impl NewlineIndices {
 fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePositionInfos> {
     let mut utf16_count = 0;
 
-    let mut char_indices_counter = 0;
     for (utf8_idx, c) in s.char_indices() {
-        char_indices_counter += 1;
         if utf16_count == utf16_pos {
             return Ok(BytePositionInfos {
                 byte: utf8_idx as CodeIndex,
@@ -219,7 +217,7 @@ fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePo
     }
     Ok(BytePositionInfos {
         byte: s.len() as CodeIndex,
-        column_out_of_bounds: utf16_pos > char_indices_counter,
+        column_out_of_bounds: utf16_pos > utf16_count,
     })
 }
 
-- 
2.43.0


From 4803992c03d8eb4ceeb929e33319d530a02a1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 12/22] fix: a full document change invalidates the line
 indices of the old contents

---
 crates/zuban_python/src/lsp_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/lsp_utils.rs b/crates/zuban_python/src/lsp_utils.rs
index 8e3b9cf..2660b23 100644
--- a/crates/zuban_python/src/lsp_utils.rs
+++ b/crates/zuban_python/src/lsp_utils.rs
@@ -13,12 +13,15 @@ pub(crate) fn apply_document_changes(
 ) -> anyhow::Result<String> {
     // If at least one of the changes is a full document change, use the last
     // of them as the starting point and ignore all previous changes.
+    let mut line_indices = Cow::Borrowed(line_indices);
     let (mut text, content_changes) = match content_changes
         .iter()
         .rposition(|change| change.range.is_none())
     {
         Some(idx) => {
             let text = std::mem::take(&mut content_changes[idx].text);
+            // The given indices belong to the contents that are replaced
+            line_indices = Cow::Owned(NewlineIndices::new());
             (text, &content_changes[idx + 1..])
         }
         None => (file_contents.to_string(), &content_changes[..]),
@@ -27,7 +30,6 @@ pub(crate) fn apply_document_changes(
         return Ok(text);
     }
 
-    let mut line_indices = Cow::Borrowed(line_indices);
     // The changes we got must be applied sequentially, but can cross lines so we
     // have to keep our line index updated.
     // Some clients (e.g. Code) sort the ranges in reverse. As an optimization, we
-- 
2.43.0


From 53452cfcc62042e77b72195591143e7c9ef47ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:15 +0000
Subject: [PATCH 13/22] fix: setting partial flags also resets the finished
 flag

---
 crates/zuban_python/src/database.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/database.rs b/crates/zuban_python/src/database.rs
index 61ab4cb..50b8609 100644
--- a/crates/zuban_python/src/database.rs
+++ b/crates/zuban_python/src/database.rs
@@ -355,7 +355,10 @@ impl Point {
             "{:?}",
             self
         );
-        let mut flags = self.flags & !PARTIAL_NULLABLE_MASK & !PARTIAL_REPORTED_ERROR_MASK;
+        let mut flags = self.flags
+            & !PARTIAL_NULLABLE_MASK
+            & !PARTIAL_REPORTED_ERROR_MASK
+            & !PARTIAL_FINISHED_MASK;
         flags |= (partial_flags.nullable as u32) << PARTIAL_NULLABLE_INDEX;
         flags |= (partial_flags.reported_error as u32) << PARTIAL_REPORTED_ERROR_INDEX;
         flags |= (partial_flags.finished as u32) << PARTIAL_FINISHED_INDEX;
-- 
2.43.0


From 47f60ede7b1be8a88403d65d6b623784ba0a0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 14/22] fix: removing a file that was never loaded invalidates
 its dependents

---
 crates/vfs/src/vfs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 3851511..d78ea32 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -658,6 +658,14 @@ impl<F: VfsFile> Vfs<F> {
                                     }
                                 }
                                 all_unloads.insert(file_index);
+                            } else {
+                                // The file was never loaded, but others might have looked for it
+                                match &*f.invalidations.borrow() {
+                                    InvalidationDetail::InvalidatesDb => invalidates_db = true,
+                                    InvalidationDetail::Some(invs) => {
+                                        all_invalidations.extend(invs)
+                                    }
+                                }
                             }
                         }
                         DirectoryEntry::MissingEntry(missing) => {
-- 
2.43.0


From 8133a71d99797542036936bc6756de4801f15995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:58 +0000
Subject: [PATCH 15/22] fix: an open file in a replaced directory is tracked by
 its new entry

---
 crates/vfs/src/vfs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index d78ea32..a6b87c1 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -762,6 +762,8 @@ impl<F: VfsFile> Vfs<F> {
             match ensured.kind {
                 AddedKind::FileEntry(file_entry) => {
                     file_entry.with_set_file_index(|| file_index);
+                    // The old entry is no longer part of the tree
+                    self.file_state_mut(file_index).file_entry = file_entry;
                     self.handler.on_invalidated_in_memory_file(path);
                 }
                 AddedKind::Gitignore(_) => {
-- 
2.43.0


From f604b06a9d8f3a3913254d4929fc0ece203e76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:29 +0000
Subject: [PATCH 16/22] fix: the place of ignore codes is right behind the
 first line

---
 crates/parsa_python_cst/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..402e1b6 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -156,7 +156,6 @@ impl Tree {
                 }
                 start_at += comment.len() as CodeIndex + 1;
             }
-            start_at += 1;
         }
         result
     }
-- 
2.43.0


From 4cd047bdcf19e84730f995b6650ae6ed4c58501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:29 +0000
Subject: [PATCH 17/22] fix: a tab or form feed may follow an ignore comment

---
 crates/parsa_python_cst/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 402e1b6..1ea3c6f 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -483,7 +483,7 @@ pub fn maybe_type_ignore<'db>(
     if let Some(after) = text.strip_prefix("ignore") {
         let trimmed = after.trim_start_matches(' ');
         let start_at = start_at + (text.len() - trimmed.len()) as CodeIndex;
-        let trimmed = trimmed.trim_end_matches(' ');
+        let trimmed = trimmed.trim_ascii_end();
         if let Some(trimmed) = trimmed.strip_prefix('[')
             && let Some(trimmed) = trimmed.strip_suffix(']')
             && !trimmed.is_empty()
-- 
2.43.0


From 70dcf65f8f07c29c06f88b8f2ee9ca5db7b053a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:29 +0000
Subject: [PATCH 18/22] fix: an ignore comment is never suggested inside an
 f-string

---
 crates/parsa_python_cst/src/code_actions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/code_actions.rs b/crates/parsa_python_cst/src/code_actions.rs
index b5ada69..24e41f6 100644
--- a/crates/parsa_python_cst/src/code_actions.rs
+++ b/crates/parsa_python_cst/src/code_actions.rs
@@ -1,4 +1,4 @@
-use parsa_python::CodeIndex;
+use parsa_python::{CodeIndex, PyNodeType::Terminal, TerminalType};
 
 use crate::{Tree, TypeIgnoreComment};
 
@@ -58,6 +58,12 @@ impl Tree {
                 if leaf.end() > last_valid_position {
                     return None;
                 }
+                if let Some(next) = leaf.next_leaf()
+                    && next.is_type(Terminal(TerminalType::FStringString))
+                {
+                    // The line ends within an f-string, a comment would become part of the string.
+                    return None;
+                }
 
                 Some(TypeIgnoreInsertion {
                     insertion_index: leaf.end(),
-- 
2.43.0


From b53da4d0e69aa5a061a1f17ea7eb85e7d4646063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:29 +0000
Subject: [PATCH 19/22] fix: a code added to an ignore comment with a tab is
 effective

---
 crates/parsa_python_cst/src/code_actions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/code_actions.rs b/crates/parsa_python_cst/src/code_actions.rs
index 24e41f6..82ea2b5 100644
--- a/crates/parsa_python_cst/src/code_actions.rs
+++ b/crates/parsa_python_cst/src/code_actions.rs
@@ -35,7 +35,8 @@ impl Tree {
                 kind,
                 ..
             }) => Some(TypeIgnoreInsertion {
-                insertion_index: codes_start_at_index + codes.trim_ascii_end().len() as CodeIndex,
+                insertion_index: codes_start_at_index
+                    + codes.trim_end_matches(' ').len() as CodeIndex,
                 preexisting_type_ignore_kind: Some(kind),
             }),
             Some(TypeIgnoreComment::WithoutCode) => None,
-- 
2.43.0


From c724627ba8ec40512bed7f31768af09e6975f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:51 +0000
Subject: [PATCH 20/22] fix: more specific override patterns take precedence
 over more general ones

---
 crates/config/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/config/src/lib.rs b/crates/config/src/lib.rs
index 636e0a1..f3db7b6 100644
--- a/crates/config/src/lib.rs
+++ b/crates/config/src/lib.rs
@@ -539,7 +539,7 @@ fn parse_python_ini(code: &str) -> anyhow::Result<Ini> {
 fn order_overrides_for_priority(overrides: &mut [OverrideConfig]) {
     // The overrides with the highest priorities should be last, because they overwrite the flags
     // for a file at the end
-    overrides.sort_by_key(|o| o.module.kind);
+    overrides.sort_by_key(|o| o.module.priority());
 }
 
 #[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
@@ -807,6 +807,20 @@ impl From<&str> for OverridePath {
 }
 
 impl OverridePath {
+    /// More specific well-structured patterns (e.g. foo.bar.*) take precedence over more general
+    /// ones (e.g. foo.*), all others are ordered by their position in the config.
+    fn priority(&self) -> (OverrideKind, usize) {
+        let specificity = match self.kind {
+            OverrideKind::WellStructured => self
+                .path
+                .iter()
+                .filter(|part| matches!(part, OverridePathPart::Part(_)))
+                .count(),
+            OverrideKind::Unstructured | OverrideKind::ModuleName => 0,
+        };
+        (self.kind, specificity)
+    }
+
     pub fn matches_file_path(&self, name: &str, parent_dir: Option<&Directory>) -> bool {
         fn matches_file_path<'x>(
             mut reverse_path: impl Iterator<Item = &'x OverridePathPart> + Clone,
-- 
2.43.0


From 79e4ae0a4c61ece40e536d35a35dcb1b46b2b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:08 +0000
Subject: [PATCH 21/22] fix: no text in a configuration comment crashes the
 checker

---
 crates/zuban_python/src/file/python_file.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index 2809fc0..e5029cc 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -1058,10 +1058,10 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
             let (name, value) = if let Some((first, second)) = directive.split_once('=') {
                 let mut second = second.trim();
                 if had_quotation_marks {
-                    if second.chars().next().is_some_and(|first| first == '"')
-                        && second.chars().last().is_some_and(|last| last == '"')
+                    if let Some(after_quote) = second.strip_prefix('"')
+                        && let Some(content) = after_quote.strip_suffix('"')
                     {
-                        second = &second[1..second.len() - 1];
+                        second = content;
                     } else {
                         self.issues.add(Issue::from_start_stop(
                             start_position - 1,
@@ -1071,7 +1071,7 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
                             ),
                             true,
                         ));
-                        second = &second[1..];
+                        second = second.strip_prefix('"').unwrap_or(second);
                     }
                 }
                 (first.trim(), Some(second))
-- 
2.43.0


From 7d96381ffed2c9886616b25054a5946091f40913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:08 +0000
Subject: [PATCH 22/22] fix: errors in configuration comments are reported
 where the setting is

---
 crates/zuban_python/src/file/python_file.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index e5029cc..adbe82e 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -1055,6 +1055,7 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
         let split_name_value = |start_position: CodeIndex,
                                 directive: &'code str,
                                 had_quotation_marks: bool| {
+            let end_position = start_position + directive.len() as CodeIndex;
             let (name, value) = if let Some((first, second)) = directive.split_once('=') {
                 let mut second = second.trim();
                 if had_quotation_marks {
@@ -1064,8 +1065,8 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
                         second = content;
                     } else {
                         self.issues.add(Issue::from_start_stop(
-                            start_position - 1,
                             start_position,
+                            end_position,
                             IssueKind::DirectiveSyntaxError(
                                 "Content after quote in configuration comment".into(),
                             ),
@@ -1080,8 +1081,8 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
             };
             if name.contains('"') {
                 self.issues.add(Issue::from_start_stop(
-                    start_position - 1,
                     start_position,
+                    end_position,
                     IssueKind::DirectiveSyntaxError("Quotes should not be part of the key".into()),
                     true,
                 ));
@@ -1099,10 +1100,11 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
                 opened_quotation_mark = true;
                 had_quotation_marks = true;
             } else if n == b',' {
-                self.start_position += i as CodeIndex;
+                let start_position = self.start_position;
+                self.start_position += i as CodeIndex + 1;
                 let result = &self.rest[..i];
                 self.rest = &self.rest[i + 1..];
-                return split_name_value(self.start_position, result, had_quotation_marks);
+                return split_name_value(start_position, result, had_quotation_marks);
             }
         }
         if opened_quotation_mark {
@@ -1115,8 +1117,8 @@ impl<'code> Iterator for DirectiveSplitter<'_, 'code> {
                 true,
             ));
         } else {
-            let rest = self.rest.trim();
-            if !rest.is_empty() {
+            let rest = self.rest;
+            if !rest.trim().is_empty() {
                 self.rest = "";
                 return split_name_value(self.start_position, rest, had_quotation_marks);
             }
-- 
2.43.0

