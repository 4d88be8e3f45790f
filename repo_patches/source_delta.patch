From dc06533d0931294e550d162bde04e953b470ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:43 +0000
Subject: [PATCH 01/26] fix: give Derivative postfix AST nodes the source of
 the whole expression

a' abstracted to a Derivative call whose metadata had no source, tripping
the 'Ast source does not match Cst source' debug assertion.
---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..071a772 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -545,7 +545,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstractedBody],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         // PostfixNode[Derivative, {rand_, LeafNode[Token`Boxes`MultiSingleQuote, quoteStr_, _]}, data_]
@@ -563,7 +563,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstract_(operand)],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         _ => unhandled(),
-- 
2.43.0


From 3e430ce71d32797db60d8956f6c00bcfaed892c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:54 +0000
Subject: [PATCH 02/26] fix: do not panic abstracting << / >> / >>> whose
 operand is not a file string

'<<' or 'a>>' with a missing or erroneous operand reached todo!().
---
 crates/wolfram-parser/src/abstract_cst.rs | 29 +++++++++++------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 071a772..c5b2c45 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -500,7 +500,10 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // PrefixNode[op_, {_, operand_}, data_]
+                    //
+                    // E.g. the operand is missing or is an error token.
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -620,27 +623,23 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let file = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
                             ref input,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(input.as_str()),
+                            data1,
+                        ),
+                        // BinaryNode[op_, {left_, _, right_}, data_]
+                        //
+                        // E.g. the operand is missing or is an error token.
+                        right => abstract_(right),
                     };
 
-                    Ast::call(
-                        op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
-                        data,
-                    )
+                    Ast::call(op.to_symbol(), vec![abstract_(left), file], data)
                 },
 
                 BinaryOperator::Pattern => Ast::call(
-- 
2.43.0


From 06daeccd63a45bbae7bb975dd842e9c26ecc6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:03 +0000
Subject: [PATCH 03/26] fix: do not panic abstracting a negated empty
 parenthesis group, e.g. -()

---
 crates/wolfram-parser/src/abstract_cst.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index c5b2c45..6d0623f 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1576,12 +1576,11 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
-
-            parenthesizedIntegerOrRealQ(child)
+            match children.0.as_slice() {
+                [_, child, _] => parenthesizedIntegerOrRealQ(child),
+                // E.g. `()`
+                _ => false,
+            }
         },
         // parenthesizedIntegerOrRealQ[LeafNode[Integer, _, _]] := True
         // parenthesizedIntegerOrRealQ[LeafNode[Real, _, _]] := True
-- 
2.43.0


From f103168be3aad2e11e7f1f2412d1e9253433d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:23 +0000
Subject: [PATCH 04/26] fix: accept implicit and \[Times] separators when
 flattening Times

part_span_even_children() was told every separator of a Times node is '*',
which is false for juxtaposition, so a debug assertion failed for a b/c.
---
 crates/wolfram-parser/src/abstract_cst.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 6d0623f..0f78914 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1697,8 +1697,7 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
                 }
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
-                let children =
-                    part_span_even_children(children, Some(TK::Star));
+                let children = part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2056,7 +2055,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
-- 
2.43.0


From cb57ee41e1d448467bd85e103a070ba38c08d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:32 +0000
Subject: [PATCH 05/26] fix: include the last good line in the text of
 unterminated tokens

The WL span firstChunk[[2 ;; lastGoodLineIndex]] is inclusive. The half-open
range dropped the last line that the token's own span covers, and panicked
(range start after end) when only the first line was good.
---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From c70f376d8e5505d6cc2fb7d3f939e0ac385390cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:16 +0000
Subject: [PATCH 06/26] fix: do not panic on an unterminated group in input
 that is not valid UTF-8

parse_bytes_cst()/parse_bytes_ast() report invalid encodings in the result;
an opener without closer anywhere in such input panicked instead.
---
 crates/wolfram-parser/src/error.rs     |  2 +-
 crates/wolfram-parser/src/parse.rs     | 14 ++++++--------
 crates/wolfram-parser/src/parse_cst.rs |  2 +-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..305cd47 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -63,7 +63,7 @@ pub(crate) fn reparse_unterminated_tokens<'i>(
 // But return the opener to make ToString stuff easier
 pub(crate) fn reparse_unterminated_group_node<'i>(
     (tag, children): (GroupOperator, NodeSeq<Cst<TokenStr<'i>>>),
-    str: &'i str,
+    str: &str,
     tab_width: usize,
 ) -> GroupMissingCloserNode<TokenStr<'i>> {
     let src = children.get_source();
diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..a1bd433 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -767,7 +767,7 @@ where
     fn reduce_unterminated_group(
         &mut self,
         ctx_data: Self::ContextData,
-        input: &'i str,
+        input: &str,
         tab_width: usize,
         op: GroupOperator,
         group_state: Self::GroupParseState,
@@ -1478,18 +1478,16 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // The input is not necessarily valid UTF-8: invalid bytes are decoded
+        // as "unsafe" characters and parsing continues past them. Only the
+        // layout of the lines is needed here, so replace invalid bytes.
+        let input = String::from_utf8_lossy(self.input());
 
         let tab_width = self.tokenizer.tab_width as usize;
 
         self.builder.reduce_unterminated_group(
             ctx_data,
-            input,
+            &input,
             tab_width,
             op,
             group_state,
diff --git a/crates/wolfram-parser/src/parse_cst.rs b/crates/wolfram-parser/src/parse_cst.rs
index 48ccee2..5525cb3 100644
--- a/crates/wolfram-parser/src/parse_cst.rs
+++ b/crates/wolfram-parser/src/parse_cst.rs
@@ -614,7 +614,7 @@ impl<'i> ParseBuilder<'i> for ParseCst<'i> {
     fn reduce_unterminated_group(
         &mut self,
         ctx_data: Self::ContextData,
-        input: &'i str,
+        input: &str,
         tab_width: usize,
         op: GroupOperator,
         _state: Self::GroupParseState,
-- 
2.43.0


From 03ca03ed54c24735110e4bc1a5e17814f4af2c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:26 +0000
Subject: [PATCH 07/26] fix: tokenize(&str) must not panic if the string
 contains a byte order mark

tokenize() is also used internally on the lines of unterminated groups.
---
 crates/wolfram-parser/src/lib.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..d286dd4 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -377,8 +377,11 @@ pub fn tokenize<'i>(
     input: &'i str,
     opts: &ParseOptions,
 ) -> NodeSeq<Token<TokenStr<'i>>> {
-    tokenize_bytes(input.as_bytes(), opts)
-        .expect("unexpected character encoding error tokenizing &str")
+    // A `&str` can still be flagged as having an unsafe encoding if it contains
+    // a byte order mark. That is not an error here.
+    let (tokens, _) = tokenize_with_encoding_flag(input.as_bytes(), opts);
+
+    tokens
 }
 
 /// Parse bytes containing Wolfram Language input into a sequence of tokens.
@@ -386,6 +389,19 @@ pub fn tokenize_bytes<'i>(
     input: &'i [u8],
     opts: &ParseOptions,
 ) -> Result<NodeSeq<Token<TokenStr<'i>>>, UnsafeCharacterEncoding> {
+    match tokenize_with_encoding_flag(input, opts) {
+        (_, Some(flag)) => Err(flag),
+        (tokens, None) => Ok(tokens),
+    }
+}
+
+fn tokenize_with_encoding_flag<'i>(
+    input: &'i [u8],
+    opts: &ParseOptions,
+) -> (
+    NodeSeq<Token<TokenStr<'i>>>,
+    Option<UnsafeCharacterEncoding>,
+) {
     let mut tokenizer = Tokenizer::new(input, opts);
 
     let mut tokens = Vec::new();
@@ -406,10 +422,6 @@ pub fn tokenize_bytes<'i>(
         tok.skip(&mut tokenizer);
     } // while (true)
 
-    if let Some(flag) = tokenizer.unsafe_character_encoding_flag {
-        return Err(flag);
-    }
-
     if let Ok(input) = std::str::from_utf8(tokenizer.input) {
         NodeSeq(tokens) = crate::error::reparse_unterminated_tokens(
             NodeSeq(tokens),
@@ -418,7 +430,7 @@ pub fn tokenize_bytes<'i>(
         );
     }
 
-    return Ok(NodeSeq(tokens));
+    (NodeSeq(tokens), tokenizer.unsafe_character_encoding_flag)
 }
 
 //======================================
-- 
2.43.0


From 6ba8285e00f0a18f4fff7d120326532a62ce93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:39 +0000
Subject: [PATCH 08/26] fix: do not extend an unterminated file string over the
 tokens that follow it

---
 crates/wolfram-parser/src/error.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 305cd47..9a64873 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -133,6 +133,13 @@ fn reparse_unterminated_token_error_node<'i>(
 ) {
     debug_assert!(error.tok.isError() && error.tok.isUnterminated());
 
+    // An unterminated file string, e.g. `<<[a b`, ends before the first
+    // whitespace and not at the end of the input, so it is already limited to
+    // its line, and what follows it on that line belongs to other tokens.
+    if error.tok == TokenKind::Error_UnterminatedFileString {
+        return;
+    }
+
     // TODO: Use `input` here to optimize the process_lines() calculation?
     let Token {
         tok: _,
-- 
2.43.0


From 08ff04cc6bba3787e7dfc518b801c6c9b182aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:11 +0000
Subject: [PATCH 09/26] fix: count characters, not bytes, for unterminated
 tokens with character index positions

---
 crates/wolfram-parser/src/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 9a64873..1907dc0 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -540,16 +540,21 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
     //     .collect();
 }
 
+/// Number of characters in `s`, as counted by [`CharacterSpan`].
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    let byte_offset = |char_index: usize| match s.char_indices().nth(char_index)
+    {
+        Some((offset, _)) => offset,
+        None => s.len(),
+    };
+
+    &s[byte_offset(start)..byte_offset(end)]
 }
 
 //==========================================================
-- 
2.43.0


From c46f007ff5c06553f649e08d8136b5b652aafe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 10/26] fix: do not panic abstracting a stray closer after an
 inner bracket group, e.g. a[[[]]}]

---
 crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..1e5616d 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -87,7 +87,7 @@ pub(super) fn abstract_call_node<
                     children,
                 })),
             src: data,
-        } if matches!(
+        } if children.0.len() == 3 && matches!(
             children.0[1], // inner
             Cst::Group(GroupNode(OperatorNode {
                 op: GroupOperator::CodeParser_GroupSquare,
-- 
2.43.0


From 8b1f773a1d27de13e318f17fb436226a3bf83d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 11/26] fix: a #! line is skipped as raw text, and a # that
 does not start a #! line is kept

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 100 ++++--------------
 1 file changed, 20 insertions(+), 80 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..6ada9a3 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -175,49 +175,7 @@ impl<'i> Tokenizer<'i> {
                 // Handle the optional #! shebang
                 //
 
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    // not #!
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    // not #!
-
-                    return;
-                }
-
-                //
-                // Definitely a shebang
-                //
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
-
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
-                } // while (true)
+                self.skip_shebang();
 
                 //
                 // TODO: if anyone ever asks, then consider providing the shebang as a token
@@ -229,50 +187,32 @@ impl<'i> Tokenizer<'i> {
                 // Handle the #! shebang
                 //
 
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
+                if !self.skip_shebang() {
                     //
                     // TODO: add to Issues
                     //
-
-                    return;
                 }
+            },
+        }
+    }
 
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
-
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
+    /// If the input starts with `#!`, skip the first line and return `true`.
+    /// Otherwise do not advance.
+    ///
+    /// The rest of a shebang line is not Wolfram Language code, so it must not
+    /// be tokenized: quotes or `(*` in it have no meaning.
+    fn skip_shebang(&mut self) -> bool {
+        if !self.input.starts_with(b"#!") {
+            // not #!
 
-                        break;
-                    }
+            return false;
+        }
 
-                    peek.skip(self);
-                } // while (true)
-            },
+        loop {
+            match self.next_source_char(TOPLEVEL) {
+                Char('\n' | '\r') | CRLF | EndOfFile => return true,
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0


From 29e9a4e1740b457f6b5ab132ffecd58682385573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:08 +0000
Subject: [PATCH 12/26] fix: allow line continuations between the digits of a
 number base

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 6ada9a3..e705e6c 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2040,28 +2040,32 @@ fn Tokenizer_handleNumber<'i>(
 
                 Ctxt.InvalidBase = true;
             } else {
-                // PRE_COMMIT: Compute string length differently
-                let baseStrLen = BufferAndLength::between(
+                // There may be line continuations between the digits
+                let base = BufferAndLength::between(
                     nonZeroStartBuf,
                     caret1Buf.unwrap(),
-                )
-                .buf
-                .len();
+                );
+                let base: Vec<u8> = base
+                    .as_bytes()
+                    .iter()
+                    .copied()
+                    .filter(|b| !matches!(b, b'\\' | b'\n' | b'\r' | b' ' | b'\t'))
+                    .collect();
 
                 //
                 // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
                 //
-                if baseStrLen > 2 {
-                    Ctxt.InvalidBase = true;
-                } else if baseStrLen == 2 {
-                    let d1 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[1]));
-                    Ctxt.Base = d1 * 10 + d0;
-                } else {
-                    assert!(baseStrLen == 1);
-
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    Ctxt.Base = d0;
+                match *base.as_slice() {
+                    [d1, d0] => {
+                        let d1 = i32::from(utils::toDigit(d1));
+                        let d0 = i32::from(utils::toDigit(d0));
+                        Ctxt.Base = d1 * 10 + d0;
+                    },
+                    [d0] => {
+                        let d0 = i32::from(utils::toDigit(d0));
+                        Ctxt.Base = d0;
+                    },
+                    _ => Ctxt.InvalidBase = true,
                 }
 
                 if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
-- 
2.43.0


From 0030cf512183b2a8f8713869afd49c97c2e2ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:04 +0000
Subject: [PATCH 13/26] fix: do not track a line continuation that was read
 ahead and given back

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index e705e6c..0d676bb 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -295,7 +295,7 @@ impl<'i> Tokenizer<'i> {
     /// Construct a new token whose source buffer and location begin at `start`
     /// and end at the current buffer and source location.
     fn token<T: Into<TokenKind>>(
-        &self,
+        &mut self,
         tok: T,
         start: &TokenStart<'i>,
     ) -> TokenRef<'i> {
@@ -305,6 +305,19 @@ impl<'i> Tokenizer<'i> {
 
         let span = self.get_token_span(start.loc);
 
+        //
+        // A line continuation may have been read while looking ahead, and then
+        // been given back. It is not part of this token.
+        //
+        if !self.tracked.simple_line_continuations.is_empty()
+            && !buf
+                .as_bytes()
+                .windows(2)
+                .any(|pair| matches!(pair, b"\\\n" | b"\\\r"))
+        {
+            self.tracked.simple_line_continuations.remove(&start.loc);
+        }
+
         Token::new2(tok, buf, span)
     }
 
-- 
2.43.0


From 10fe4f78386bafb5f1161352af9f03e5ad7137a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:47 +0000
Subject: [PATCH 14/26] fix: accept an invisible comma where a comma starts a
 sequence

---
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0


From 03fe12885e625250b10e3f2423f8ddba4e4fee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:09 +0000
Subject: [PATCH 15/26] fix: do not panic on an operator's name applied with an
 invisible application

---
 crates/wolfram-parser/src/abstract_cst.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 0f78914..f7bd649 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -2173,8 +2173,11 @@ pub(crate) fn processInfixBinaryAtQuirk<
         return node;
     }
 
-    // TODO: Make this a debug_assert!?
-    assert!(matches!(middle, Cst::Token(Token { tok: TK::At, .. })));
+    // Only the `@` operator has this quirk. The same node is also used for
+    // \[InvisibleApplication].
+    if !matches!(middle, Cst::Token(Token { tok: TK::At, .. })) {
+        return node;
+    }
 
     // let data = rhs.source();
 
-- 
2.43.0


From ef57cbbd76c2ad4e042bbdb12b44c72b28476a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:04 +0000
Subject: [PATCH 16/26] fix: hexadecimal escapes of surrogates (\:D800,
 \|00DFFF) panicked

---
 .../wolfram-parser/src/read/character_decoder.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..bc69502 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // The surrogates, e.g. \:D800, are not characters
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -960,13 +966,13 @@ fn CharacterDecoder_handle6Hex(
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
     //       of range?
-    if point > 0x10ffff {
+    //
+    // Out of range are points above 0x10ffff and the surrogates
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From 764da4e523c93707334370d4ac415aa4782a5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 17/26] fix: an escape of enough digits that names no character
 swallowed the character after it

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 0d676bb..3181635 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -4509,19 +4509,18 @@ fn Tokenizer_handleUnhandledBackslash<'i>(
             c = Tokenizer_nextWLCharacter(session, token_start, policy);
 
             for _ in 0..4 {
-                if c.isHex() {
-                    reset_mark = session.mark();
-
-                    c = Tokenizer_nextWLCharacter(session, token_start, policy);
-
-                    continue;
+                if !c.isHex() {
+                    break;
                 }
 
-                session.seek(reset_mark);
+                reset_mark = session.mark();
 
-                break;
+                c = Tokenizer_nextWLCharacter(session, token_start, policy);
             }
 
+            // The last character read is not part of the escape
+            session.seek(reset_mark);
+
             return session
                 .token(TokenKind::Error_UnhandledCharacter, token_start);
         },
@@ -4586,19 +4585,18 @@ fn Tokenizer_handleUnhandledBackslash<'i>(
             c = Tokenizer_nextWLCharacter(session, token_start, policy);
 
             for _ in 0..6 {
-                if c.isHex() {
-                    reset_mark = session.mark();
-
-                    c = Tokenizer_nextWLCharacter(session, token_start, policy);
-
-                    continue;
+                if !c.isHex() {
+                    break;
                 }
 
-                session.seek(reset_mark);
+                reset_mark = session.mark();
 
-                break;
+                c = Tokenizer_nextWLCharacter(session, token_start, policy);
             }
 
+            // The last character read is not part of the escape
+            session.seek(reset_mark);
+
             return session
                 .token(TokenKind::Error_UnhandledCharacter, token_start);
         },
-- 
2.43.0


From 7b803d45650e6181f1fa11bbd112802405293838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 18/26] fix: formatting a character read from \[RawDoubleQuote]
 or \[RawBackslash] panicked

---
 crates/wolfram-parser/src/read/wl_character.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/wolfram-parser/src/read/wl_character.rs b/crates/wolfram-parser/src/read/wl_character.rs
index 980ae89..0ddbdef 100644
--- a/crates/wolfram-parser/src/read/wl_character.rs
+++ b/crates/wolfram-parser/src/read/wl_character.rs
@@ -179,6 +179,17 @@ impl Display for WLCharacter {
 
         match self.escape() {
             Escape::None | Escape::Raw => {
+                // The graphical form of these shows them escaped.
+                i = match i {
+                    CodePoint::StringMeta_DoubleQuote if !graphical_flag => {
+                        Char(CODEPOINT_ACTUAL_DOUBLEQUOTE)
+                    },
+                    CodePoint::StringMeta_Backslash if !graphical_flag => {
+                        Char(CODEPOINT_ACTUAL_BACKSLASH)
+                    },
+                    _ => i,
+                };
+
                 return format_char(SourceCharacter::from(i));
             },
             Escape::Single => {
-- 
2.43.0


From 956851f6c5c5752b76d205f601506860df22679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 19/26] fix: an unquoted file name ended at a $ that was not
 its first character

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 3181635..39783ff 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1722,7 +1722,7 @@ fn Tokenizer_handleString_stringifyAsFile<'i>(
             #[rustfmt::skip]
             Char(
                 'A'..='Z' | 'a'..='z' | '0'..='9'
-                | '`' | '/' | '.' | '\\' | '!'
+                | '$' | '`' | '/' | '.' | '\\' | '!'
                 | '-' | '_' | ':' | '*' | '~' | '?',
             ) => {
                 session.next_source_char(policy);
-- 
2.43.0


From c24738141bb661cd6a7d182c7b4633fe2706b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 20/26] fix: LineColumnSpan::overlaps() missed a span that
 encloses the receiver

---
 crates/wolfram-parser/src/source.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..6e8e2ee 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,10 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        // The last case is a `cursor` that encloses this span.
+        self.contains(start)
+            || self.contains(end)
+            || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From dad2a3137190ff8ce3b2a737159284eb5666b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:46 +0000
Subject: [PATCH 21/26] fix: write confidence level metadata as a rule

---
 crates/codeparser-wll/src/convert_wstp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/codeparser-wll/src/convert_wstp.rs b/crates/codeparser-wll/src/convert_wstp.rs
index ab84420..917757e 100644
--- a/crates/codeparser-wll/src/convert_wstp.rs
+++ b/crates/codeparser-wll/src/convert_wstp.rs
@@ -195,6 +195,8 @@ impl WstpPut for Metadata {
         }
 
         if let Some(level) = confidence_level {
+            link.put_function("System`Rule", 2).unwrap();
+            link.put_symbol(sym::ConfidenceLevel.as_str()).unwrap();
             link.put_expr(&Expr::number(level.clone())).unwrap();
         }
 
-- 
2.43.0


From 58ac8f14c9b4704084ee9df10b14fd10bd258582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:07 +0000
Subject: [PATCH 22/26] fix: report 1.2.3 at its second dot

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 39783ff..a984017 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2998,11 +2998,13 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                 // Something like  1.2.3
                 //
 
+                let second_dot_loc = session.SrcLoc;
+
                 let mut Actions = Vec::new();
 
                 Actions.push(CodeAction::insert_text(
                     "Insert ``*``".into(),
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     "*".into(),
                 ));
 
@@ -3010,7 +3012,7 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                     IssueTag::UnexpectedImplicitTimes,
                     format!("Suspicious syntax."),
                     Severity::Error,
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     0.99,
                     Actions,
                     vec![],
-- 
2.43.0


From ad7a9366f1749eee8c4c2f07b417e92f70b61f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 23/26] fix: place issues about a tag's first character on that
 character

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index a984017..4ba1a67 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1616,14 +1616,11 @@ fn Tokenizer_handleString_stringifyAsTag<'i>(
     //
 
     if c.isLetterlike() || c.isMBLetterlike() {
-        let letterlikeBuf = session.buffer();
-        let letterlikeLoc = session.SrcLoc;
-
         Tokenizer_handleSymbolSegment(
             session,
             token_start,
-            letterlikeBuf,
-            letterlikeLoc,
+            token_start.buf,
+            token_start.loc,
             c,
             policy,
         );
-- 
2.43.0


From 335e1cb79bf5f0c766a6d6809f38637918a91ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 24/26] fix: do not panic abstracting a stray closer in
 brackets without a head, e.g. [a}]

---
 crates/wolfram-parser/src/abstract_cst.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index f7bd649..ab038dc 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1030,6 +1030,12 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
+                        // GroupNode[GroupSquare, {_, children__, _}, data_]
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::OpenSquare,
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
+                            data,
+                        ),
                         _ => unhandled(),
                     }
                 },
@@ -1068,6 +1074,12 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
+                        // GroupNode[GroupTypeSpecifier, {_, children__, _}, data_]
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::ColonColonOpenSquare,
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
+                            data,
+                        ),
                         _ => unhandled(),
                     }
                 },
@@ -1106,6 +1118,12 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
+                        // GroupNode[GroupDoubleBracket, {_, children__, _}, data_]
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::LeftDoubleBracket,
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
+                            data,
+                        ),
                         _ => unhandled(),
                     }
                 },
-- 
2.43.0


From 7dbf40282e598224ee778b016974367c1a019bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:01 +0000
Subject: [PATCH 25/26] fix: track line continuations in a quoted file name

---
 crates/wolfram-parser/src/source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index 6e8e2ee..275aad6 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -317,7 +317,8 @@ pub(crate) const INSIDE_STRINGIFY_AS_TAG: NextPolicy = NextPolicy(
         | TAGSLOT_BEHAVIOR_FOR_STRINGS.0
         | TRACK_LC.0,
 );
-pub(crate) const INSIDE_STRINGIFY_AS_FILE: NextPolicy = RETURN_TOPLEVELNEWLINE;
+pub(crate) const INSIDE_STRINGIFY_AS_FILE: NextPolicy =
+    NextPolicy(RETURN_TOPLEVELNEWLINE.0 | TRACK_LC.0);
 
 pub(crate) const INSIDE_SLOT: NextPolicy = NextPolicy(
     TAGSLOT_BEHAVIOR_FOR_STRINGS.0 | INTEGER_SHORT_CIRCUIT.0 | TRACK_LC.0,
-- 
2.43.0


From 10faf19a003fa2f7a8771eed540e9e66f4662d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:52 +0000
Subject: [PATCH 26/26] fix: a bracket left open kept the first token of the
 next statement (character indices)

---
 crates/wolfram-parser/src/error.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 1907dc0..5476fe3 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -93,7 +93,17 @@ pub(crate) fn reparse_unterminated_group_node<'i>(
             input: _,
             src: node_src,
         }) => {
-            if better_src.overlaps(*node_src) {
+            // A character span already includes the newline that ends the last
+            // good line, so text at its (exclusive) end is on the next line.
+            let is_better = match (better_src.kind(), node_src.kind()) {
+                (
+                    SpanKind::CharacterSpan(CharacterSpan(_, better_end)),
+                    SpanKind::CharacterSpan(CharacterSpan(node_start, node_end)),
+                ) => node_start < better_end || node_end == better_end,
+                _ => better_src.overlaps(*node_src),
+            };
+
+            if is_better {
                 better_leaves.push(node.clone());
             }
         },
-- 
2.43.0

