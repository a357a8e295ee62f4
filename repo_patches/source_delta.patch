From 3720d9e0f76fb4cdbc593b5fecc669d6d27a510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 01/15] fix: accept reserved names starting with an underscore

Identifiers may start with an underscore (as the error's own help text
says), but reserved "_foo" was rejected as an invalid identifier.
---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From d4bde119dbe328d33f1fb8055fa094942ca9c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 02/15] fix: accept options on extension ranges with a single
 number

'extensions 4 [...];' was rejected because '[' was not accepted after a
range without an upper bound.
---
 protox-parse/src/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..4e1486b 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -846,7 +846,9 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma | Token::Semicolon | Token::LeftBracket, _)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From 4f272044a48f6c470c9d4c70c155444a7cd2bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 03/15] fix: keep blank lines in block comments

---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..e28dd33 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -398,7 +398,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches([' ', '\t', '\x0b', '\x0c', '\r']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From 357aa21c9f0f50cb7cf4acf2cf55bd8e31828011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 04/15] fix: attach a block comment ending its line to the
 preceding declaration

---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 4e1486b..c230bfc 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1200,6 +1200,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From 5c543337de35435290c6506d96abb676432dea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/15] fix: take the trailing comment of a method with a body
 after its opening brace

---
 protox-parse/src/parse/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index c230bfc..aed5bf6 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -556,14 +556,17 @@ impl<'a> Parser<'a> {
         self.expect_eq(Token::RightParen)?;
 
         let mut options = Vec::new();
-        let end = match self.peek_skip_comments()? {
+        let (end, comments) = match self.peek_skip_comments()? {
             Some((Token::Semicolon, span)) => {
                 self.bump();
-                span
+                (span, self.parse_trailing_comment(leading_comments))
             }
             Some((Token::LeftBrace, _)) => {
                 self.bump();
-                loop {
+
+                let comments = self.parse_trailing_comment(leading_comments);
+
+                let end = loop {
                     match self.peek()? {
                         Some((Token::OPTION, _)) => {
                             options.push(self.parse_option()?);
@@ -575,13 +578,13 @@ impl<'a> Parser<'a> {
                         }
                         _ => self.unexpected_token("'option', '}' or ';'")?,
                     }
-                }
+                };
+
+                (end, comments)
             }
             _ => self.unexpected_token("';' or '{'")?,
         };
 
-        let comments = self.parse_trailing_comment(leading_comments);
-
         Ok(ast::Method {
             name,
             input_ty,
-- 
2.43.0


From 7cd7e3aa6f5a4fe03435d60ec76ce9f593b24756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 06/15] fix: keep detached comments across empty statements

---
 protox-parse/src/parse/comments.rs | 11 ++++++++++-
 protox-parse/src/parse/mod.rs      | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/protox-parse/src/parse/comments.rs b/protox-parse/src/parse/comments.rs
index 7812977..289931e 100644
--- a/protox-parse/src/parse/comments.rs
+++ b/protox-parse/src/parse/comments.rs
@@ -2,6 +2,7 @@ use std::{borrow::Cow, mem::take};
 
 #[derive(Default, Clone)]
 pub(super) struct Comments {
+    kept_detached: Vec<String>,
     leading_detached: Vec<String>,
     leading: Option<String>,
     trailing: Option<String>,
@@ -50,6 +51,7 @@ impl Comments {
 
     pub fn reset(&mut self) {
         self.leading = None;
+        self.kept_detached.clear();
         self.leading_detached.clear();
         self.trailing = None;
 
@@ -58,7 +60,14 @@ impl Comments {
     }
 
     pub fn take_leading(&mut self) -> (Vec<String>, Option<String>) {
-        (take(&mut self.leading_detached), take(&mut self.leading))
+        let mut detached = take(&mut self.kept_detached);
+        detached.append(&mut self.leading_detached);
+        (detached, take(&mut self.leading))
+    }
+
+    /// Carries over the detached comments before an empty statement to the next declaration.
+    pub fn keep_detached(&mut self, comments: Vec<String>) {
+        self.kept_detached = comments;
     }
 
     pub fn take_trailing(&mut self) -> Option<String> {
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index aed5bf6..5f27e22 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -167,7 +167,7 @@ impl<'a> Parser<'a> {
     fn parse_statement(&mut self) -> Result<Option<Statement>, ()> {
         match self.peek()? {
             Some((Token::Semicolon, span)) => {
-                self.bump();
+                self.bump_empty_statement();
                 Ok(Some(Statement::Empty(span)))
             }
             Some((Token::IMPORT, _)) => Ok(Some(Statement::Import(self.parse_import()?))),
@@ -283,7 +283,7 @@ impl<'a> Parser<'a> {
                     items.push(ast::MessageItem::Field(self.parse_field()?))
                 }
                 Some((Token::Semicolon, _)) => {
-                    self.bump();
+                    self.bump_empty_statement();
                     continue;
                 }
                 Some((Token::RightBrace, _)) => break self.bump(),
@@ -468,7 +468,7 @@ impl<'a> Parser<'a> {
         let end = loop {
             match self.peek()? {
                 Some((Token::Semicolon, _)) => {
-                    self.bump();
+                    self.bump_empty_statement();
                     continue;
                 }
                 Some((Token::RightBrace, _)) => break self.bump(),
@@ -507,7 +507,7 @@ impl<'a> Parser<'a> {
                     options.push(self.parse_option()?);
                 }
                 Some((Token::Semicolon, _)) => {
-                    self.bump();
+                    self.bump_empty_statement();
                     continue;
                 }
                 Some((Token::RightBrace, _)) => break self.bump(),
@@ -573,7 +573,7 @@ impl<'a> Parser<'a> {
                         }
                         Some((Token::RightBrace, _)) => break self.bump(),
                         Some((Token::Semicolon, _)) => {
-                            self.bump();
+                            self.bump_empty_statement();
                             continue;
                         }
                         _ => self.unexpected_token("'option', '}' or ';'")?,
@@ -620,7 +620,7 @@ impl<'a> Parser<'a> {
                     reserved.push(self.parse_reserved()?);
                 }
                 Some((Token::Semicolon, _)) => {
-                    self.bump();
+                    self.bump_empty_statement();
                     continue;
                 }
                 Some((Token::Ident(_), _)) => {
@@ -684,7 +684,7 @@ impl<'a> Parser<'a> {
             match self.peek()? {
                 Some((Token::OPTION, _)) => options.push(self.parse_option()?),
                 Some((Token::Semicolon, _)) => {
-                    self.bump();
+                    self.bump_empty_statement();
                     continue;
                 }
                 Some((Token::RightBrace, _)) => break self.bump(),
@@ -1190,6 +1190,12 @@ impl<'a> Parser<'a> {
         span
     }
 
+    fn bump_empty_statement(&mut self) {
+        let (detached, _) = self.comments.take_leading();
+        self.bump();
+        self.comments.keep_detached(detached);
+    }
+
     fn peek(&mut self) -> Result<Option<(Token<'a>, Span)>, ()> {
         if self.lexer.span() != Span::default() {
             match self.peek_comments()? {
-- 
2.43.0


From 5c3869d6149a549e746c4a0bceae3842e6566241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 07/15] fix: describe an invalid import as such

---
 protox-parse/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..9ae16ed 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -76,7 +76,7 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
-    #[error("invalid group name")]
+    #[error("invalid import name")]
     #[diagnostic(help(
         "imports may not contain backslashes, repeated forward slashes, '.' or '..' components"
     ))]
-- 
2.43.0


From ab0f1d83baed3169595738e0a2cb5d52d7f760ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 08/15] fix: reject digits that are not valid in an octal
 literal

---
 protox-parse/src/lex/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index e28dd33..3c750d4 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", |lex| int(lex, 8, 0))]
     #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
@@ -188,10 +188,11 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
         Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
-            lex.extras
-                .errors
-                .push(ParseErrorKind::IntegerOutOfRange { span });
+            lex.extras.errors.push(match err.kind() {
+                IntErrorKind::PosOverflow => ParseErrorKind::IntegerOutOfRange { span },
+                // A digit which isn't valid in this radix, e.g. `08`.
+                _ => ParseErrorKind::InvalidToken { span },
+            });
             Ok(Default::default())
         }
     }
-- 
2.43.0


From 1591d1f0059aff366d108a3e337692e47fd230f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 09/15] fix: limit the nesting depth of messages

---
 protox-parse/src/error.rs     |  6 ++++++
 protox-parse/src/parse/mod.rs | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index 9ae16ed..d153167 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -210,6 +210,11 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
+    #[error("messages are nested too deeply")]
+    MessageNestingTooDeep {
+        #[label("found here")]
+        span: Span,
+    },
     #[error("file is too large")]
     #[diagnostic(help("the maximum file length is 2,147,483,647 bytes"))]
     FileTooLarge,
@@ -274,6 +279,7 @@ impl ParseError {
             ParseErrorKind::ValueInvalidType { span, .. } => Some(span.clone()),
             ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),
             ParseErrorKind::EmptyOneof { span } => Some(span.clone()),
+            ParseErrorKind::MessageNestingTooDeep { span } => Some(span.clone()),
             ParseErrorKind::FileTooLarge => None,
         }
     }
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 5f27e22..19b83a8 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -31,8 +31,13 @@ struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    message_depth: usize,
 }
 
+/// The maximum number of messages and groups which may be nested in each other. `protoc` has a
+/// limit of 32.
+const MAX_MESSAGE_DEPTH: usize = 64;
+
 #[derive(Debug, Clone)]
 enum ExpectedToken {
     Token(Token<'static>),
@@ -56,6 +61,7 @@ impl<'a> Parser<'a> {
             lexer: Token::lexer(source),
             comments: Comments::new(),
             peek: None,
+            message_depth: 0,
         }
     }
 
@@ -261,6 +267,20 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_message_body(&mut self) -> Result<(ast::MessageBody, Span), ()> {
+        if self.message_depth >= MAX_MESSAGE_DEPTH {
+            if let Some((_, span)) = self.peek()? {
+                self.add_error(ParseErrorKind::MessageNestingTooDeep { span });
+                return Err(());
+            }
+        }
+
+        self.message_depth += 1;
+        let result = self.parse_message_items();
+        self.message_depth -= 1;
+        result
+    }
+
+    fn parse_message_items(&mut self) -> Result<(ast::MessageBody, Span), ()> {
         let mut items = Vec::new();
         let mut options = Vec::new();
         let mut reserved = Vec::new();
-- 
2.43.0


From ffbf4c840c98937a89a590ea28102eac9c97899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 10/15] fix: accept fields whose type is named map

---
 protox-parse/src/parse/mod.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 19b83a8..4d5b466 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -345,9 +345,25 @@ impl<'a> Parser<'a> {
         };
 
         match self.peek()? {
-            Some((Token::MAP, _)) => self.parse_map(leading_comments, start, label),
+            Some((Token::MAP, ty_start)) => {
+                self.bump();
+                match self.peek_skip_comments()? {
+                    // The name of a message or enum, rather than a map type.
+                    Some((Token::Ident(_), _)) => {
+                        let ty = ast::Ty::Named(ast::TypeName {
+                            name: vec![ast::Ident::new("map", ty_start.clone())].into(),
+                            leading_dot: None,
+                        });
+                        self.parse_normal_field(leading_comments, start, label, (ty, ty_start))
+                    }
+                    _ => self.parse_map(leading_comments, start, label, ty_start),
+                }
+            }
             Some((Token::GROUP, _)) => self.parse_group(leading_comments, start, label),
-            _ => self.parse_normal_field(leading_comments, start, label),
+            _ => {
+                let ty = self.parse_field_type(&[ExpectedToken::Ident])?;
+                self.parse_normal_field(leading_comments, start, label, ty)
+            }
         }
     }
 
@@ -356,9 +372,8 @@ impl<'a> Parser<'a> {
         leading_comments: (Vec<String>, Option<String>),
         start: Span,
         label: Option<(ast::FieldLabel, Span)>,
+        ty_start: Span,
     ) -> Result<ast::Field, ()> {
-        let ty_start = self.expect_eq(Token::MAP)?;
-
         self.expect_eq(Token::LeftAngleBracket)?;
         let (key_ty, key_ty_span) = self.parse_field_type(&[ExpectedToken::COMMA])?;
         self.expect_eq(Token::Comma)?;
@@ -445,9 +460,8 @@ impl<'a> Parser<'a> {
         leading_comments: (Vec<String>, Option<String>),
         start: Span,
         label: Option<(ast::FieldLabel, Span)>,
+        (ty, ty_span): (ast::Ty, Span),
     ) -> Result<ast::Field, ()> {
-        let (ty, ty_span) = self.parse_field_type(&[ExpectedToken::Ident])?;
-
         let name = self.parse_ident()?;
 
         self.expect_eq(Token::Equals)?;
-- 
2.43.0


From 2bd2e657dc02ab005846f0b6b18ebf62d8237c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 11/15] fix: point import errors at the whole import statement

---
 protox/src/error.rs | 47 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/protox/src/error.rs b/protox/src/error.rs
index 4ffad63..b75e066 100644
--- a/protox/src/error.rs
+++ b/protox/src/error.rs
@@ -1,6 +1,6 @@
 use std::{fmt, io, path::PathBuf};
 
-use miette::{Diagnostic, NamedSource, SourceCode, SourceOffset, SourceSpan};
+use miette::{Diagnostic, NamedSource, SourceCode, SourceSpan};
 use prost_reflect::DescriptorError;
 use protox_parse::ParseError;
 use thiserror::Error;
@@ -174,25 +174,34 @@ impl Error {
 }
 
 fn find_import_span(file: &File, import_idx: usize) -> Option<SourceSpan> {
-    if let Some(sci) = &file.descriptor.source_code_info {
-        if let Some(source) = file.source() {
-            for location in &sci.location {
-                if location.path == [3, import_idx as i32] {
-                    if location.span.len() != 3 {
-                        continue;
-                    }
-                    let start_line = location.span[0] as usize + 1;
-                    let start_col = location.span[1] as usize + 1;
-                    let end_col = location.span[2] as usize + 1;
-                    return Some(SourceSpan::new(
-                        SourceOffset::from_location(source, start_line, start_col),
-                        end_col - start_col,
-                    ));
-                }
-            }
+    let source = file.source()?;
+    let location = file
+        .descriptor
+        .source_code_info
+        .as_ref()?
+        .location
+        .iter()
+        .find(|location| location.path == [3, import_idx as i32])?;
+    let (start, end) = match location.span[..] {
+        [line, start_col, end_col] => ((line, start_col), (line, end_col)),
+        [start_line, start_col, end_line, end_col] => {
+            ((start_line, start_col), (end_line, end_col))
         }
-    }
-    None
+        _ => return None,
+    };
+
+    let (start, end) = (byte_offset(source, start), byte_offset(source, end));
+    Some(SourceSpan::from((start, end - start)))
+}
+
+/// Converts a zero-based line and column (in bytes) to an offset in the source.
+fn byte_offset(source: &str, (line, col): (i32, i32)) -> usize {
+    let line_start: usize = source
+        .split_inclusive('\n')
+        .take(line as usize)
+        .map(str::len)
+        .sum();
+    line_start + col as usize
 }
 
 impl From<DescriptorError> for Error {
-- 
2.43.0


From 8a8a6da89a15f991c2f3d970b4cf52bc1a19fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 12/15] fix: treat a file below a non-directory as not found

---
 protox/src/file/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protox/src/file/mod.rs b/protox/src/file/mod.rs
index f8bd0a5..032182c 100644
--- a/protox/src/file/mod.rs
+++ b/protox/src/file/mod.rs
@@ -123,6 +123,8 @@ impl File {
                 io::ErrorKind::InvalidData => Error::from_kind(ErrorKind::FileInvalidUtf8 {
                     name: name.to_owned(),
                 }),
+                // The file can't exist if one of its parents is not a directory.
+                _ if path.ancestors().skip(1).any(is_not_directory) => Error::file_not_found(name),
                 _ => Error::from_kind(ErrorKind::OpenFile {
                     name: name.to_owned(),
                     path: path.to_owned(),
@@ -270,6 +272,10 @@ impl FileMetadata {
     }
 }
 
+fn is_not_directory(path: &Path) -> bool {
+    fs::metadata(path).map_or(false, |metadata| !metadata.is_dir())
+}
+
 impl From<FileDescriptorProto> for File {
     fn from(file: FileDescriptorProto) -> Self {
         File::from_file_descriptor_proto(file)
-- 
2.43.0


From 8c753ba24363d33876eace8eba81c7d17c94fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 13/15] fix: a rejected file no longer corrupts the compiler's
 descriptor pool

When adding a file fails, prost-reflect's rollback can leave references to
extensions of the rejected file in messages, and can drop extensions added
before. A later open of a valid file, or reading the pool, then panicked.
---
 protox/src/compile/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/protox/src/compile/mod.rs b/protox/src/compile/mod.rs
index 6df5edc..d2f718f 100644
--- a/protox/src/compile/mod.rs
+++ b/protox/src/compile/mod.rs
@@ -313,11 +313,26 @@ impl Compiler {
             if let Some(source) = source {
                 err = err.with_source_code(&source);
             }
+            self.reset_pool();
             err
         })?;
 
         Ok(path)
     }
+
+    /// Builds the pool anew from the files added so far.
+    ///
+    /// When a file is rejected, the pool may keep references to extensions of that file, or
+    /// lose extensions added before.
+    fn reset_pool(&mut self) {
+        let mut pool = DescriptorPool::new();
+        if pool
+            .decode_file_descriptor_set(self.pool.encode_to_vec().as_slice())
+            .is_ok()
+        {
+            self.pool = pool;
+        }
+    }
 }
 
 impl fmt::Debug for Compiler {
-- 
2.43.0


From 8bbdcc8c164a64bb446ac4d04dd7de37ab927d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 14/15] fix: name synthetic oneofs so that they conflict with
 no other field or oneof

---
 protox-parse/src/generate/mod.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 6298bee..71bb3cd 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use logos::Span;
 use prost_types::{
     descriptor_proto, enum_descriptor_proto, field_descriptor_proto, source_code_info::Location,
@@ -258,6 +260,8 @@ impl Context {
             }
         }
 
+        avoid_synthetic_oneof_name_conflicts(&field, &mut oneof_decl, real_oneof_count);
+
         let is_message_set = match ast
             .options
             .iter()
@@ -1273,3 +1277,30 @@ fn take_option(options: &mut Option<ast::OptionList>, name: &str) -> Option<ast:
 
     None
 }
+
+/// Synthetic oneofs must not have the same name as any other field or oneof in the message, so prefix
+/// them with `X` until they are unique (this is also how protoc resolves any conflicts).
+fn avoid_synthetic_oneof_name_conflicts(
+    fields: &[FieldDescriptorProto],
+    oneofs: &mut [OneofDescriptorProto],
+    real_oneof_count: usize,
+) {
+    if oneofs.len() == real_oneof_count {
+        return;
+    }
+
+    let (real_oneofs, synthetic_oneofs) = oneofs.split_at_mut(real_oneof_count);
+    let mut names: HashSet<String> = fields
+        .iter()
+        .map(|field| field.name().to_owned())
+        .chain(real_oneofs.iter().map(|oneof| oneof.name().to_owned()))
+        .collect();
+
+    for oneof in synthetic_oneofs {
+        let mut name = oneof.name().to_owned();
+        while !names.insert(name.clone()) {
+            name.insert(0, 'X');
+        }
+        oneof.name = Some(name);
+    }
+}
-- 
2.43.0


From 5e9c35490c842d0fcae31cfbb7c06f7d0df3afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 15/15] fix: naming synthetic oneofs takes linear time

Many fields with the same name took cubic time, and quadratic space, before the error about their
names was found.
---
 protox-parse/src/generate/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/protox-parse/src/generate/mod.rs b/protox-parse/src/generate/mod.rs
index 71bb3cd..fa862b2 100644
--- a/protox-parse/src/generate/mod.rs
+++ b/protox-parse/src/generate/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 use logos::Span;
 use prost_types::{
@@ -1296,11 +1296,19 @@ fn avoid_synthetic_oneof_name_conflicts(
         .chain(real_oneofs.iter().map(|oneof| oneof.name().to_owned()))
         .collect();
 
+    // Only fields with the same name have the same initial name, which is an error found later. Using the
+    // same name for all of them avoids ever longer names.
+    let mut unique_names: HashMap<String, String> = HashMap::new();
     for oneof in synthetic_oneofs {
-        let mut name = oneof.name().to_owned();
-        while !names.insert(name.clone()) {
-            name.insert(0, 'X');
-        }
-        oneof.name = Some(name);
+        let unique_name = unique_names
+            .entry(oneof.name().to_owned())
+            .or_insert_with_key(|name| {
+                let mut name = name.clone();
+                while !names.insert(name.clone()) {
+                    name.insert(0, 'X');
+                }
+                name
+            });
+        oneof.name = Some(unique_name.clone());
     }
 }
-- 
2.43.0

