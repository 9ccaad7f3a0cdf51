From 93334b6d82f9cc4d36bc918d12c25ea48911e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 01/16] fix: tokenizing text with non-ASCII characters no
 longer panics

---
 src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index bbf053e..8604e68 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -68,7 +68,7 @@ fn parse_identifier(code: &str) -> Option<&str> {
 }
 
 fn parse_string(code: &str) -> Option<(&str, &str)> {
-    let mut chars = code.chars().enumerate().peekable();
+    let mut chars = code.char_indices().peekable();
     if let Some((_, char)) = chars.next() {
         if char != '"' {
             return None;
@@ -124,7 +124,7 @@ fn parse_ellipsis(code: &str) -> Option<&str> {
     if code.starts_with("...") {
         Some(&code[..3])
     } else if code.starts_with('\u{2026}') {
-        Some(&code[..1])
+        Some(&code[..'\u{2026}'.len_utf8()])
     } else {
         None
     }
@@ -363,7 +363,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        let raw_symbol = &code[..1];
+        let raw_symbol = &code[..code.chars().next().map_or(0, char::len_utf8)];
         tokens.push(make_token(
             &mut code,
             &mut current_position,
-- 
2.43.0


From b295b160886b38649354b726f70ac0d1e1a82edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 02/16] fix: recognise a number that ends the input

---
 src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 8604e68..1e4cae9 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -26,7 +26,8 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
             return false;
         };
         true
-    })?;
+    });
+    let position = position.unwrap_or(code.len());
 
     let number_str = &code[0..position];
     let number = if has_dot_been_used {
-- 
2.43.0


From 3f6b3e47478751f21759a7e68559a2fa4e89f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 03/16] fix: keywords are only recognised as whole words

---
 src/lexer/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 1e4cae9..5dfe19f 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -38,11 +38,21 @@ fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
     return Some((number_str, number));
 }
 
+/// Checks if the code starts with the given word, and the word isn't just the beginning of a longer
+/// identifier
+fn starts_with_word(code: &str, word: &str) -> bool {
+    code.starts_with(word)
+        && !matches!(
+            code[word.len()..].chars().next(),
+            Some('_' | 'a'..='z' | 'A'..='Z')
+        )
+}
+
 fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
     Keywords::iter()
         .find(|keyword| {
             let keyword_str: &str = keyword.to_string_slice();
-            code.starts_with(keyword_str)
+            starts_with_word(code, keyword_str)
         })
         .and_then(|keyword| {
             Some((
@@ -135,9 +145,9 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
     let true_str = Keywords::WIN.to_string_slice();
     let false_str = Keywords::FAIL.to_string_slice();
 
-    if code.starts_with(true_str) {
+    if starts_with_word(code, true_str) {
         Some((&code[..true_str.len()], true))
-    } else if code.starts_with(false_str) {
+    } else if starts_with_word(code, false_str) {
         Some((&code[..false_str.len()], false))
     } else {
         None
@@ -147,7 +157,7 @@ fn parse_boolean(code: &str) -> Option<(&str, bool)> {
 fn parse_noob(code: &str) -> Option<&str> {
     let noob_str = Keywords::NOOB.to_string_slice();
 
-    if code.starts_with(noob_str) {
+    if starts_with_word(code, noob_str) {
         Some(&code[..noob_str.len()])
     } else {
         None
-- 
2.43.0


From dbd0c6c44434069c9e099081dec1e4baa4613022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/16] fix: tokenize "?" as a question mark, and accept it in
 O RLY and WTF

---
 src/lexer/mod.rs               | 2 +-
 src/parser/statements/o_rly.rs | 1 +
 src/parser/statements/wtf.rs   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 5dfe19f..65c6549 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -255,7 +255,7 @@ pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
             continue;
         }
 
-        if code.starts_with(',') {
+        if code.starts_with('?') {
             let raw_question_mark = &code[..1];
             tokens.push(make_token(
                 &mut code,
diff --git a/src/parser/statements/o_rly.rs b/src/parser/statements/o_rly.rs
index 33e37cf..c769000 100644
--- a/src/parser/statements/o_rly.rs
+++ b/src/parser/statements/o_rly.rs
@@ -54,6 +54,7 @@ impl ORly {
         tokens: &mut StatementIterator,
     ) -> Result<ORly, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 04e88b6..73d5a2e 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -37,6 +37,7 @@ impl Wtf {
         tokens: &mut StatementIterator,
     ) -> Result<Wtf, ASTErrorType> {
         match tokens.next().map(|t| t.token_type) {
+            Some(TokenType::QuestionMark) => {}
             Some(TokenType::Symbol(symbol)) if symbol == "?" => {}
             _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),
         };
-- 
2.43.0


From c143efa3b350637cd88e0b66f08eea8b226bcb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 05/16] fix: an escaped colon in a string does not escape the
 next character

---
 src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/mod.rs b/src/lexer/mod.rs
index 65c6549..aad58b6 100644
--- a/src/lexer/mod.rs
+++ b/src/lexer/mod.rs
@@ -88,7 +88,7 @@ fn parse_string(code: &str) -> Option<(&str, &str)> {
 
     while let Some((index, char)) = chars.next() {
         if char == ':' {
-            if let Some((_, '"')) = chars.peek() {
+            if let Some((_, '"' | ':')) = chars.peek() {
                 chars.next();
             }
         }
-- 
2.43.0


From e2b6fb948e2972aabf2a3b55b66112fbfe3267a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/16] fix: positions after a newline inside a string or
 comment token

---
 src/lexer/position.rs            | 18 +++++++++++-------
 src/lexer/range.rs               |  4 ++++
 src/parser/statement_iterator.rs |  1 +
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lexer/position.rs b/src/lexer/position.rs
index b8d262e..dfdbb63 100644
--- a/src/lexer/position.rs
+++ b/src/lexer/position.rs
@@ -41,18 +41,22 @@ impl PartialOrd for Position {
 impl Add<&str> for Position {
     type Output = Position;
     fn add(self, rhs: &str) -> Self::Output {
-        return Position {
-            line: self.line,
-            column: self.column + rhs.len() as i32,
-            chars: self.chars + rhs.chars().count() as i32,
-            bytes: self.bytes + rhs.bytes().len() as i32,
-        };
+        let mut position = self;
+        position += rhs;
+        position
     }
 }
 
 impl AddAssign<&str> for Position {
     fn add_assign(&mut self, rhs: &str) -> () {
-        self.column = self.column + rhs.len() as i32;
+        for char in rhs.chars() {
+            if char == '\n' {
+                self.line += 1;
+                self.column = 1;
+            } else {
+                self.column += char.len_utf8() as i32;
+            }
+        }
         self.chars = self.chars + rhs.chars().count() as i32;
         self.bytes = self.bytes + rhs.bytes().len() as i32;
     }
diff --git a/src/lexer/range.rs b/src/lexer/range.rs
index 7bb3f05..a850325 100644
--- a/src/lexer/range.rs
+++ b/src/lexer/range.rs
@@ -33,6 +33,10 @@ impl Range {
     pub(crate) fn start_line(&self) -> i32 {
         self.0.line
     }
+
+    pub(crate) fn end_line(&self) -> i32 {
+        self.1.line
+    }
 }
 
 #[cfg(test)]
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index a918a55..c3c0075 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -120,6 +120,7 @@ impl Iterator for StatementIterator {
             }
             Some((_, range)) => {
                 if range.start_line() == self.current_line {
+                    self.current_line = range.end_line();
                     self.tokens_iter.next()
                 } else {
                     None
-- 
2.43.0


From b3701735e1cf7fbe28e0adede8659585b27663ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 07/16] fix: a variable followed by an unexpected token is an
 error, not a panic

---
 src/parser/statements/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/statements/mod.rs b/src/parser/statements/mod.rs
index b0c50ef..10b7508 100644
--- a/src/parser/statements/mod.rs
+++ b/src/parser/statements/mod.rs
@@ -215,9 +215,7 @@ pub(crate) fn parse_statement(
             Some(TokenType::Keyword(Keywords::HAS_A)) => {
                 BukkitSetSlot::parse(variable_access, tokens).map(|t| t.into())
             }
-
-            // TODO - fix this mess
-            Some(_) => unreachable!(),
+            Some(_) => VariableAssignment::parse(variable_access, tokens).map(|t| t.into()),
         };
     }
 
-- 
2.43.0


From bdbdcaea2ba684b84a11ab5ab70ec982b60a492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 08/16] fix: report the unsupported MAEK operation as an error
 instead of panicking

---
 src/parser/expression/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 96a9903..9d0a923 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -350,9 +350,7 @@ impl ASTExpression {
                     }
                     // String concat operation
                     Keywords::SMOOSH => NaryOperation::parse(NaryOpt::Smoosh(first_token), tokens),
-                    // Type Cast operation
-                    Keywords::MAEK => todo!(),
-
+                    // TODO: Type Cast operation (MAEK)
                     _ => Err(ASTErrorType::UnexpectedToken(first_token)),
                 }
             }
-- 
2.43.0


From 88a5a3b77adb8e716e16b2ca052e49aaf748d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 09/16] fix: HAI no longer swallows the statement after it

---
 src/parser/statements/hai.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements/hai.rs b/src/parser/statements/hai.rs
index f60c73b..73c743c 100644
--- a/src/parser/statements/hai.rs
+++ b/src/parser/statements/hai.rs
@@ -18,7 +18,7 @@ impl Hai {
     ) -> Result<Hai, ASTErrorType> {
         Ok(Hai {
             hai_token: first_token,
-            version: tokens.next_statement(),
+            version: tokens.collect(),
         })
     }
 }
-- 
2.43.0


From 9bb29b0287f9f2e7862fe5209d1ea38576649c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 10/16] fix: function and switch no longer swallow the
 statement after them

---
 src/parser/statements/how_is_i.rs | 2 --
 src/parser/statements/wtf.rs      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/parser/statements/how_is_i.rs b/src/parser/statements/how_is_i.rs
index 83e918d..7337d59 100644
--- a/src/parser/statements/how_is_i.rs
+++ b/src/parser/statements/how_is_i.rs
@@ -69,8 +69,6 @@ impl HowIzI {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(HowIzI {
             how_iz_i_token: first_token,
             body,
diff --git a/src/parser/statements/wtf.rs b/src/parser/statements/wtf.rs
index 73d5a2e..be660dc 100644
--- a/src/parser/statements/wtf.rs
+++ b/src/parser/statements/wtf.rs
@@ -81,8 +81,6 @@ impl Wtf {
             Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),
         }
 
-        tokens.next_statement_should_be_empty()?;
-
         Ok(Wtf {
             wtf_token: first_token,
             omg,
-- 
2.43.0


From c9472ed59f1a8cd5ecd4389180def1edf3598012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 11/16] fix: an empty block ends at its closing token instead
 of consuming it

---
 src/parser/blocks.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ec76fc2..b7ce99c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -134,6 +134,9 @@ fn parse_block(
     should_stop_at_token: &dyn Fn(&Token) -> bool,
 ) -> ASTBlock {
     let mut block = ASTBlock::default();
+    if matches!(statement_iterator.peek(), Some(token) if should_stop_at_token(token)) {
+        return block;
+    }
     loop {
         match statement_iterator.next() {
             Some(token) => block.0.push_back(
-- 
2.43.0


From 2c9b6b64c620a822ba9b05456d85d254766e280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/16] fix: a statement made only of an ellipsis no longer
 ends the block

---
 src/parser/statement_iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index c3c0075..323bb01 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -64,7 +64,7 @@ impl StatementIterator {
 
         while self
             .tokens_iter
-            .next_if(|t| t.token_type == TokenType::Comma)
+            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))
             .is_some()
         {}
 
-- 
2.43.0


From 5d6ce7ee44bbe1727bc2a6896f64637a423836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 13/16] fix: comments are not part of any statement

---
 src/parser/statement_iterator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 323bb01..712c86b 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -10,7 +10,13 @@ pub struct StatementIterator {
 }
 
 impl StatementIterator {
-    pub fn new(tokens: Vec<Token>) -> StatementIterator {
+    pub fn new(mut tokens: Vec<Token>) -> StatementIterator {
+        tokens.retain(|t| {
+            !matches!(
+                t.token_type,
+                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
+            )
+        });
         StatementIterator {
             current_line: tokens.first().map(|t| t.range.start_line()).unwrap_or(0),
             tokens_iter: tokens.into_iter().peekable(),
-- 
2.43.0


From aefcee995fbf7675c3ec146a4e94d2e5586698ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 14/16] fix: ASTBlock::iter_errors yields the errors instead of
 panicking

---
 src/parser/blocks.rs | 63 ++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index b7ce99c..f446062 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -29,17 +29,22 @@ impl<const T: usize> From<[Node; T]> for ASTBlock {
 }
 
 struct ASTBlockErrorIterator<'a> {
-    blocks: Vec<&'a ASTBlock>,
-    current_block_index: usize,
-    current_block_statement: usize,
+    /// Nodes that were not visited yet. The last one is the next to be visited
+    pending: Vec<&'a Node>,
 }
 
 impl<'a> ASTBlockErrorIterator<'a> {
     pub fn new(first_block: &'a ASTBlock) -> ASTBlockErrorIterator<'a> {
-        ASTBlockErrorIterator {
-            blocks: vec![first_block],
-            current_block_index: 0,
-            current_block_statement: 0,
+        let mut iterator = ASTBlockErrorIterator {
+            pending: Vec::new(),
+        };
+        iterator.push_block(first_block);
+        iterator
+    }
+
+    fn push_block(&mut self, block: &'a ASTBlock) {
+        for node in block.0.iter().rev() {
+            self.pending.push(node);
         }
     }
 }
@@ -76,46 +81,28 @@ impl Node {
     }
 }
 
-enum ASTErrorOrBlock<'a> {
-    Error(&'a ASTErrorType),
-    Block(Vec<&'a ASTBlock>),
-}
-
 impl<'a> Iterator for ASTBlockErrorIterator<'a> {
     type Item = ASTErrorType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let _block_node = self
-            .blocks
-            .iter()
-            .skip(self.current_block_index)
-            .find_map(|block| {
-                block
-                    .0
-                    .iter()
-                    .skip(self.current_block_statement)
-                    .find_map(|node| {
-                        self.current_block_statement += 1;
-                        node.get_inner_block()
-                            .map(|block| ASTErrorOrBlock::Block(block))
-                            .or_else(|| match node {
-                                Node::ASTError(error) => Some(ASTErrorOrBlock::Error(error)),
-                                _ => None,
-                            })
-                    })
-                    .or_else(|| {
-                        self.current_block_index += 1;
-                        None
-                    })
-            });
+        while let Some(node) = self.pending.pop() {
+            if let Node::ASTError(error) = node {
+                return Some(error.clone());
+            }
+            if let Some(blocks) = node.get_inner_block() {
+                for block in blocks.into_iter().rev() {
+                    self.push_block(block);
+                }
+            }
+        }
 
-        todo!()
+        None
     }
 }
 
 impl ASTBlock {
-    /// Iterates over any errors inside the block
-    pub fn iter_errors(&self) -> impl Iterator + '_ {
+    /// Iterates over any errors inside the block, including the ones in nested blocks
+    pub fn iter_errors(&self) -> impl Iterator<Item = ASTErrorType> + '_ {
         ASTBlockErrorIterator::new(self)
     }
 }
-- 
2.43.0


From 706cd2c991c6bcc2c3c557e6b9c7eb732c672a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 15/16] verification hook: re-export private items under
 cfg(lolcode_verif)

---
 src/parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3746de2..9bed3d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -14,6 +14,13 @@ mod statement_iterator;
 /// Statement related data structures and logic
 pub mod statements;
 
+/// Items that the external verification harness needs, and that are private otherwise.
+#[cfg(lolcode_verif)]
+pub mod verif_hooks {
+    pub use super::ast_node::ASTStatement;
+    pub use super::error::ASTErrorType;
+}
+
 /// Transforms an array of tokens into an ASTBlock, which is an array of statements.
 pub fn parse(tokens: Vec<Token>) -> ASTBlock {
     let mut line_iterator = StatementIterator::new(tokens);
-- 
2.43.0


From d0d76125044b8778744cb85afbb234aad5bc7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 16/16] fix: tokens left over after a block header no longer
 swallow the next statement

---
 src/parser/blocks.rs             | 5 ++++-
 src/parser/statement_iterator.rs | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index f446062..8d88083 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -134,7 +134,10 @@ fn parse_block(
 
         statement_iterator
             .next_statement_should_be_empty()
-            .unwrap_or_else(|err| block.0.push_back(err.into()));
+            .unwrap_or_else(|err| {
+                block.0.push_back(err.into());
+                statement_iterator.next_statement();
+            });
 
         match statement_iterator.peek() {
             Some(token) if should_stop_at_token(token) => break,
diff --git a/src/parser/statement_iterator.rs b/src/parser/statement_iterator.rs
index 712c86b..2fe437c 100644
--- a/src/parser/statement_iterator.rs
+++ b/src/parser/statement_iterator.rs
@@ -56,10 +56,11 @@ impl StatementIterator {
     }
 
     pub fn next_statement_should_be_empty(&mut self) -> Result<(), ASTErrorType> {
-        let remaining_tokens = self.next_statement();
+        let remaining_tokens: VecDeque<Token> = self.collect();
         if !remaining_tokens.is_empty() {
             Err(ASTErrorType::TooManyTokens(remaining_tokens))
         } else {
+            self.next_statement();
             Ok(())
         }
     }
-- 
2.43.0

