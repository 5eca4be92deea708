From d8448e7f6fbbc164714c522424c20ae599af75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 01/12] fix: recognise the end of a string literal after an
 escaped backslash

`"\\" was lexed as undelimited because only the previous character was
checked for a backslash, not whether that backslash was itself escaped.
---
 src/compile/lex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index b075b46..425498f 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -367,7 +367,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        let mut curr = '"';
+        let mut escaped = false;
         loop {
             match iter.next() {
                 None => {
@@ -376,11 +376,11 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
                 Some((j, '\r' | '\n')) => {
                     return Err(self.err_undelimited_string(i..j));
                 }
-                Some((j, '"')) if curr != '\\' => {
+                Some((j, '"')) if !escaped => {
                     return Ok((Token::String, j + 1));
                 }
                 Some((_, c)) => {
-                    curr = c;
+                    escaped = c == '\\' && !escaped;
                 }
             }
         }
-- 
2.43.0


From 343801cb0f69816bb9b28532e3eb0b3f7695cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 02/12] fix: limit right trim to the raw template before the
 tag

If the end tag before a `{{-` ends with whitespace then trimming continued
into that tag and produced an inverted span, which panicked on render.
---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index 425498f..a61e70d 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -173,7 +173,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
 
         let mut trim_raw_token = |mut i, mut j, right_trim| {
             if right_trim {
-                j = self.source[..j].trim_end().len();
+                j = i + self.source[i..j].trim_end().len();
             }
             if self.left_trim {
                 self.left_trim = false;
-- 
2.43.0


From fd9dba8892f7c37cb43cb916efed014db189e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 03/12] fix: resolve `with` variables by name in included
 templates

The name was kept as a span that lookups resolved against the source of the
template being rendered, so an included template matched the wrong name or
panicked.
---
 src/render/core.rs  | 2 +-
 src/render/stack.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/render/core.rs b/src/render/core.rs
index 91da89e..46f853e 100644
--- a/src/render/core.rs
+++ b/src/render/core.rs
@@ -192,7 +192,7 @@ where
 
                 Instr::WithStart(name) => {
                     let value = expr.take().unwrap();
-                    self.stack.push(State::Var(name, value))
+                    self.stack.push(State::Var(&t.source[name.span], value))
                 }
 
                 Instr::WithEnd => {
diff --git a/src/render/stack.rs b/src/render/stack.rs
index b5f8ec1..e36075f 100644
--- a/src/render/stack.rs
+++ b/src/render/stack.rs
@@ -17,7 +17,7 @@ pub enum State<'a> {
     Scope(ValueCow<'a>),
 
     /// A single variable.
-    Var(&'a ast::Ident, ValueCow<'a>),
+    Var(&'a str, ValueCow<'a>),
 
     /// The current state of a loop iteration
     Loop(LoopState<'a>),
@@ -32,7 +32,7 @@ impl std::fmt::Debug for State<'_> {
         match self {
             Self::ValueFn(_) => f.debug_tuple("ValueFn").field(&(..)).finish(),
             Self::Scope(scope) => f.debug_tuple("Scope").field(scope).finish(),
-            Self::Var(ident, value) => f.debug_tuple("Var").field(ident).field(value).finish(),
+            Self::Var(name, value) => f.debug_tuple("Var").field(name).field(value).finish(),
             Self::Loop(state) => f.debug_tuple("Loop").field(state).finish(),
             Self::Boundary => write!(f, "Boundary"),
         }
@@ -82,7 +82,7 @@ impl<'a> Stack<'a> {
                     None => continue,
                 },
 
-                State::Var(name, var) if source[v.first().access.span()] == source[name.span] => {
+                State::Var(name, var) if source[v.first().access.span()] == **name => {
                     return lookup_path(source, var, v.rest());
                 }
 
@@ -125,7 +125,7 @@ impl<'a> Stack<'a> {
         }
     }
 
-    pub fn pop_var(&mut self) -> (&'a ast::Ident, ValueCow<'a>) {
+    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
         match self.stack.pop().unwrap() {
             State::Var(name, value) => (name, value),
             _ => panic!("expected variable"),
-- 
2.43.0


From 42bfb84fda79493af0d0c7ad8acbfca26a356bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 04/12] fix: optional access on a loop variable returns none
 when missing

The lookup returned "no such variable" instead, so it fell through to an
outer variable of the same name or failed with "not found in this scope".
---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index 8d1c410..b3b6c2d 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -165,7 +165,7 @@ impl<'a> LoopState<'a> {
                 for m in var.rest() {
                     v = match lookup(source, v, m)? {
                         Some(v) => v,
-                        None => return Ok(None),
+                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                     };
                 }
                 v
-- 
2.43.0


From 4d990c51cd3a75da580b966b1c0000e3a8efbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 05/12] fix: compute error line and column from byte offsets

Lines were measured by display width but compared with a byte offset, so the
location was wrong after any text whose width differs from its byte length.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index e6767f2..c01ff95 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -278,9 +278,9 @@ impl Pretty {
 fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
     let mut n = 0;
     for (i, line) in lines.iter().enumerate() {
-        let len = display_width(line) + 1;
+        let len = line.len() + 1;
         if n + len > offset {
-            return (i, offset - n);
+            return (i, display_width(&line[..offset - n]));
         }
         n += len;
     }
-- 
2.43.0


From e0f21f78f823b7c3201f731d7e30821a95578a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 06/12] fix: report the last line when an error is at the end
 of the template

After a trailing newline the reported line number was one past the line whose
text and column were shown.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index c01ff95..6ad0149 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -285,7 +285,7 @@ fn to_ln_col(lines: &[&str], offset: usize) -> (usize, usize) {
         n += len;
     }
     (
-        lines.len(),
+        lines.len().saturating_sub(1),
         lines.last().map(|l| display_width(l)).unwrap_or(0),
     )
 }
-- 
2.43.0


From fe96102844a049a70cd97630075ba189f28e8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 07/12] fix: point at the invalid digit of a signed integer
 literal

The offset was counted from the sign instead of the first digit.
---
 src/compile/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index 363e24d..e09a209 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -682,7 +682,7 @@ impl<'engine, 'source> Parser<'engine, 'source> {
             .filter(|(_, &d)| d != b'_')
             .try_fold(0i64, |acc, (j, &d)| {
                 let x = (d as char).to_digit(radix).ok_or_else(|| {
-                    let m = span.m + i + j;
+                    let m = span.n - raw.len() + i + j;
                     Error::syntax(
                         format!("invalid digit for base {radix} literal"),
                         self.source(),
-- 
2.43.0


From ec3433bd30f4cd863f72b82e3b689c7b4e6a0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:38 +0000
Subject: [PATCH 08/12] fix: accept number literals after the `in` of a for
 loop

---
 src/compile/lex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index a61e70d..c23cd3e 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -292,7 +292,7 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
             (BlockState::Unknown, Token::Ident) => {
                 self.state = State::BlockPath { begin, end };
             }
-            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon) => {
+            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                 self.state = State::Block { begin, end };
             }
             _ => {}
-- 
2.43.0


From d96b782751db11ead9f6a5dd25beabe360d263ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 09/12] fix: accept empty comments

---
 src/compile/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compile/parse.rs b/src/compile/parse.rs
index e09a209..81615b0 100644
--- a/src/compile/parse.rs
+++ b/src/compile/parse.rs
@@ -117,7 +117,9 @@ impl<'engine, 'source> Parser<'engine, 'source> {
 
                 // The start of a comment, e.g. `{# ... #}`
                 (Token::BeginComment, _) => {
-                    self.expect(Token::Raw)?;
+                    if self.is_next(Token::Raw)? {
+                        self.expect(Token::Raw)?;
+                    }
                     self.expect(Token::EndComment)?;
                     continue;
                 }
-- 
2.43.0


From bf4cb1052257a0e8b187af38b50eb384b489d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:27 +0000
Subject: [PATCH 10/12] fix: an optional access to a missing member of `loop`
 ends the path

---
 src/render/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/iter.rs b/src/render/iter.rs
index b3b6c2d..eb1cbff 100644
--- a/src/render/iter.rs
+++ b/src/render/iter.rs
@@ -268,7 +268,7 @@ impl<'a> LoopState<'a> {
             (_, "index") => Value::Integer(i as i64),
             (_, "first") => Value::Bool(i == 0),
             (_, "last") => Value::Bool(rem == 0),
-            (ast::AccessOp::Optional, _) => Value::None,
+            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
             (ast::AccessOp::Direct, _) => {
                 return Err(Error::render("not found in map", source, member.span))
             }
-- 
2.43.0


From bff59550a83c06e656b3220079afa93f1586361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 11/12] fix: end a number literal before a trimming end tag

---
 src/compile/lex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compile/lex.rs b/src/compile/lex.rs
index c23cd3e..6e0a875 100644
--- a/src/compile/lex.rs
+++ b/src/compile/lex.rs
@@ -390,7 +390,18 @@ impl<'engine, 'source> Lexer<'engine, 'source> {
     where
         I: Iterator<Item = (usize, char)> + Clone,
     {
-        (Token::Number, self.lex_while(iter, is_number))
+        let j = self.lex_while(iter, is_number);
+        // A trailing hyphen could belong to the end tag, e.g. `{{ 1-}}`
+        if self.source[..j].ends_with('-')
+            && self
+                .engine
+                .searcher
+                .starts_with(self.source, j - 1)
+                .is_some()
+        {
+            return (Token::Number, j - 1);
+        }
+        (Token::Number, j)
     }
 
     fn lex_index<I>(&mut self, iter: I) -> (Token, usize)
-- 
2.43.0


From 8100a5e799c66db9c00e6ed0538c953a28052470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:31 +0000
Subject: [PATCH 12/12] fix: show errors beyond column 65535

Recent versions of the standard library panic if a width in a format string
exceeds 16 bits.
---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6ad0149..8a374a2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -253,7 +253,7 @@ impl Pretty {
         let num = (self.ln + 1).to_string();
         let col = self.col + 1;
         let pad = display_width(&num);
-        let align = self.col + self.width;
+        let indent = " ".repeat(self.col);
 
         let z = "";
         let pipe = "|";
@@ -268,7 +268,7 @@ impl Pretty {
             "\n\n {z:pad$}--> {name}:{num}:{col}\
              \n {z:pad$} {pipe}\
              \n {num:>} {pipe} {text}\
-             \n {z:pad$} {pipe} {underline:>align$}{extra}\
+             \n {z:pad$} {pipe} {indent}{underline}{extra}\
              \n {z:pad$} {pipe}\
              \n {z:pad$} {equals} reason: {reason}\n",
         )
-- 
2.43.0

