From 66c725a977f89dca53400865dd604560a3b874fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 01/24] fix: report arithmetic overflow in expressions as an
 error

---
 src/asm.rs        |  2 ++
 src/expression.rs | 26 +++++++++++++++++++++-----
 src/lib.rs        |  6 ++++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index fec5de0..5d9e4e2 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -388,6 +388,7 @@ impl std::convert::From<img::IconError> for AssemblyError {
 pub enum AssemblyError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    Overflow(Span),
     MustBeLiteralNumber(Span),
     NumberOfBytesIsLongerThanLength(Span, usize, usize), // length, number-of-bytes
     NameAlreadyExists(Span, Span, String),
@@ -552,6 +553,7 @@ impl From<EvaluationError> for AssemblyError {
             DivideByZero(span, message) => {
                 AssemblyError::DivideByZero(span.clone(), message.clone())
             }
+            Overflow(span) => AssemblyError::Overflow(span.clone()),
             MustBeLiteralNumber(span) => AssemblyError::MustBeLiteralNumber(span.clone()),
             MacroLabelOutsideOfMacro(span) => AssemblyError::MacroLabelOutsideOfMacro(span),
             MacroArgOutsideOfMacro(span) => AssemblyError::MacroArgOutsideOfMacro(span),
diff --git a/src/expression.rs b/src/expression.rs
index 75c106d..cd4f667 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -8,6 +8,7 @@ use std::fmt;
 pub enum EvaluationError {
     NameNotFound(Span, String),
     DivideByZero(Span, String),
+    Overflow(Span),
     MustBeLiteralNumber(Span),
     MacroLabelOutsideOfMacro(Span),
     MacroArgOutsideOfMacro(Span),
@@ -22,6 +23,7 @@ impl EvaluationError {
         match self {
             NameNotFound(span, msg) => format!("{}: {}", span, msg),
             DivideByZero(span, msg) => format!("{}: {}", span, msg),
+            Overflow(span) => format!("{}: Result doesn't fit in a 32-bit integer", span),
             MustBeLiteralNumber(span) => format!("{}: Must be a literal integer", span),
             MacroLabelOutsideOfMacro(span) => format!("{}: Macro label ouside of macro", span),
             MacroArgOutsideOfMacro(span) => format!("{}: Macro arg outside of macro", span),
@@ -479,10 +481,22 @@ impl Expr {
                     format!("{} '{}' not found", name_lookup.name(), name),
                 )),
             },
-            Expr::Plus(_, left, right) => Ok(left.eval(name_lookup)? + right.eval(name_lookup)?),
-            Expr::Minus(_, left, right) => Ok(left.eval(name_lookup)? - right.eval(name_lookup)?),
-            Expr::UnaryMinus(_, expr) => Ok(-1 * expr.eval(name_lookup)?),
-            Expr::Times(_, left, right) => Ok(left.eval(name_lookup)? * right.eval(name_lookup)?),
+            Expr::Plus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_add(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::Minus(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_sub(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::UnaryMinus(_, expr) => expr
+                .eval(name_lookup)?
+                .checked_neg()
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
+            Expr::Times(_, left, right) => left
+                .eval(name_lookup)?
+                .checked_mul(right.eval(name_lookup)?)
+                .ok_or_else(|| EvaluationError::Overflow(self.span())),
             Expr::Divide(_, left, right) => {
                 let left_val = left.eval(name_lookup)?;
                 let right_val = right.eval(name_lookup)?;
@@ -492,7 +506,9 @@ impl Expr {
                         format!("Divide by zero: {}/{}", left_val, right_val),
                     ))
                 } else {
-                    Ok(left_val / right_val)
+                    left_val
+                        .checked_div(right_val)
+                        .ok_or_else(|| EvaluationError::Overflow(self.span()))
                 }
             }
             Expr::Number(_, num, _radix) => Ok(*num),
diff --git a/src/lib.rs b/src/lib.rs
index 8bcc1c2..51ec81b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,12 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
             stderr.newline();
             highlight_line(&span, "", files, stderr);
         }
+        Overflow(span) => {
+            stderr
+                .writeln("Result doesn't fit in a 32-bit integer")
+                .newline();
+            highlight_line(&span, "", files, stderr);
+        }
         MustBeLiteralNumber(span) => {
             stderr.writeln(" Must be a literal number").newline();
             highlight_line(&span, "", files, stderr);
-- 
2.43.0


From f5273138a099d4e3bf1702f29eaa3b0d6f53516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 02/24] fix: keep files that are included twice in a row on
 separate lines

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c106f7..ff90465 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -55,6 +55,7 @@ impl<'a> Iterator for LineIterator<'a> {
             let start_file = self.tokens[start].span().end().file();
             let mut end = start + 1;
             while end < self.tokens.len()
+                && !self.tokens[end - 1].is_eof()
                 && start_line == self.tokens[end].span().start().line()
                 && start_file == self.tokens[end].span().start().file()
             {
-- 
2.43.0


From dc67171794b884bafdea4c82a2354a9d66e6f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 03/24] fix: write the whole output of the image command

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 51ec81b..891ccf5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -238,7 +238,7 @@ pub fn run_command(args: &[String]) {
         match matches.value_of("OUTPUT") {
             Some(output) => {
                 let mut outfile = File::create(output).unwrap();
-                outfile.write(serialized.as_bytes()).unwrap();
+                outfile.write_all(serialized.as_bytes()).unwrap();
             }
             None => {
                 println!("{}", serialized);
-- 
2.43.0


From c21df1d4098c9dc425a8b7d0a5d5cfce832f3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 04/24] fix: report tokens after an included C header

---
 src/asm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 5d9e4e2..3f2ba62 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -98,6 +98,9 @@ fn replace_includes(
                                 cheader::lex_input(&input)?
                             };
                             results.append(&mut new_tokens);
+                            if !stream.is_empty() {
+                                return Err(AssemblyError::UnexpectedToken(stream.next()?));
+                            }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
                             for token in line.iter() {
-- 
2.43.0


From b413ddc7d14426fa1076b6b1b3f2fb9d2145805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 05/24] fix: accept non-ASCII text in C header comments

---
 src/cheader.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/cheader.rs b/src/cheader.rs
index 84d2955..d928731 100644
--- a/src/cheader.rs
+++ b/src/cheader.rs
@@ -12,14 +12,11 @@ fn skip_multiline_comment<'a>(input: &Input<'a>) -> Input<'a> {
     let mut skipped = 0;
     if text.starts_with("/*") {
         skipped = skipped + 2;
-        while skipped < text.len() && !text[skipped..].starts_with("*/") {
-            skipped = skipped + 1;
-        }
-        if text[skipped..].starts_with("*/") {
-            return input.update(skipped + 2);
-        } else {
-            return input.update(skipped);
-        }
+        skipped = match text[skipped..].find("*/") {
+            Some(end) => skipped + end + 2,
+            None => text.len(),
+        };
+        return input.update(skipped);
     }
     input.clone()
 }
-- 
2.43.0


From 32ca0f70df5856b5257f417db07c3586675dc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 06/24] fix: do not substitute macro arguments and labels
 inside macro arguments

---
 src/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index cd4f667..9a204c2 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -193,8 +193,13 @@ impl Expr {
                         Imm(expr) => Err(EvaluationError::ImmediateValueNotAllowedHere(
                             span.with_parent(expr.span()),
                         )),
+                        // The argument belongs to the invocation, not to the macro.
                         Ex(expr) => Ok(expr
-                            .replace_macro_args(inv_span.clone(), labels, args)?
+                            .replace_macro_args(
+                                inv_span.clone(),
+                                &HashMap::new(),
+                                &HashMap::new(),
+                            )?
                             .with_span(expr.span().with_parent(inv_span.clone()))),
                         IM(im_span, _) => Err(EvaluationError::IndirectionModeNotAllowedHere(
                             span.with_parent(im_span.clone()),
-- 
2.43.0


From 0cd4027c2633d80fb4dd7bb6a4b6bc027ec5d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 07/24] fix: report number literals that are too large instead
 of panicking

---
 src/lexer.rs | 64 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ec9d8ab..91c82d3 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -311,26 +311,38 @@ fn clean_str(string: &str) -> String {
 
 struct Matcher {
     regex: Regex,
-    convert: fn(&str) -> TokenType,
+    convert: Box<dyn Fn(&str) -> Option<TokenType> + Send + Sync>,
 }
 
 impl Matcher {
     pub fn new(re: &str, convert: fn(&str) -> TokenType) -> Matcher {
         Matcher {
             regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
-            convert: convert,
+            convert: Box::new(move |text| Some(convert(text))),
         }
     }
 
-    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<(Input<'a>, Token)> {
+    /// A matcher for text that may not denote a token, e.g. because a
+    /// number is too large.
+    pub fn fallible(re: &str, convert: fn(&str) -> Option<TokenType>) -> Matcher {
+        Matcher {
+            regex: Regex::new(("^".to_owned() + re).as_str()).unwrap(),
+            convert: Box::new(convert),
+        }
+    }
+
+    /// Returns `None` if the input doesn't match, and `Some(None)` if
+    /// it matches but doesn't denote a token.
+    pub fn do_match<'a>(&self, input: &Input<'a>) -> Option<Option<(Input<'a>, Token)>> {
         match self.regex.captures_iter(input.as_str()).next() {
             Some(cap) => {
                 let capture: &str = &cap[0];
                 let convert = &self.convert;
-                let token_type = convert(capture);
-                let new_input = input.update(capture.len());
-                let span = Span::new(input.location(), new_input.location());
-                Some((new_input, Token::new(token_type, span)))
+                Some(convert(capture).map(|token_type| {
+                    let new_input = input.update(capture.len());
+                    let span = Span::new(input.location(), new_input.location());
+                    (new_input, Token::new(token_type, span))
+                }))
             }
             None => None,
         }
@@ -398,24 +410,24 @@ fn skip_whitespace_and_comments<'a>(input: &Input<'a>) -> Input<'a> {
     current
 }
 
-fn to_hex_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).unwrap();
-    TokenType::Number(num, Radix::Hex)
+fn to_hex_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 16).ok()?;
+    Some(TokenType::Number(num, Radix::Hex))
 }
 
-fn to_oct_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).unwrap();
-    TokenType::Number(num, Radix::Octal)
+fn to_oct_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[2..]).replace('\'', ""), 8).ok()?;
+    Some(TokenType::Number(num, Radix::Octal))
 }
 
-fn to_bin_num(text: &str, prefix: usize) -> TokenType {
-    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).unwrap();
-    TokenType::Number(num, Radix::Binary)
+fn to_bin_num(text: &str, prefix: usize) -> Option<TokenType> {
+    let num = i32::from_str_radix(&(&text[prefix..]).replace('\'', ""), 2).ok()?;
+    Some(TokenType::Number(num, Radix::Binary))
 }
 
-fn to_dec_num(text: &str) -> TokenType {
-    let num = i32::from_str_radix(&text.replace('\'', ""), 10).unwrap();
-    TokenType::Number(num, Radix::Decimal)
+fn to_dec_num(text: &str) -> Option<TokenType> {
+    let num = i32::from_str_radix(&text.replace('\'', ""), 10).ok()?;
+    Some(TokenType::Number(num, Radix::Decimal))
 }
 
 fn read_token<'a>(
@@ -469,12 +481,12 @@ fn read_token<'a>(
                 }),
                 Matcher::new("@[rR][0123]", |text| to_indr_mode(text)),
                 Matcher::new(ident, |text| TokenType::Name(text.to_lowercase())),
-                Matcher::new(hex_num, |text| to_hex_num(text, 1)),
-                Matcher::new(oct_num, |text| to_oct_num(text)),
-                Matcher::new(hex_num2, |text| to_hex_num(text, 2)),
-                Matcher::new(bin_num, |text| to_bin_num(text, 1)),
-                Matcher::new(bin_num2, |text| to_bin_num(text, 2)),
-                Matcher::new(dec_num, |text| to_dec_num(text)),
+                Matcher::fallible(hex_num, |text| to_hex_num(text, 1)),
+                Matcher::fallible(oct_num, |text| to_oct_num(text)),
+                Matcher::fallible(hex_num2, |text| to_hex_num(text, 2)),
+                Matcher::fallible(bin_num, |text| to_bin_num(text, 1)),
+                Matcher::fallible(bin_num2, |text| to_bin_num(text, 2)),
+                Matcher::fallible(dec_num, |text| to_dec_num(text)),
             ]
         };
     }
@@ -486,7 +498,7 @@ fn read_token<'a>(
         for matcher in MATCHERS.iter() {
             match matcher.do_match(&input) {
                 None => (),
-                matched => return matched,
+                Some(matched) => return matched,
             }
         }
         None
-- 
2.43.0


From bdf20c499cbea68d83775786ba22e3c6d3bf7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:49 +0000
Subject: [PATCH 08/24] fix: report a macro definition without %end

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ff90465..d648f7f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -306,6 +306,7 @@ impl Parser {
                 macro_lines[idx] = true;
                 idx = idx + 1;
                 let mut statements = vec![];
+                let mut ended = false;
                 while idx < lines.len() {
                     let line = lines[idx];
                     let mut tokens = TokenStream::from(line);
@@ -316,6 +317,7 @@ impl Parser {
                             return Err(ParseError::UnexpectedToken(tokens.next()?));
                         } else {
                             idx = idx + 1;
+                            ended = true;
                             break;
                         }
                     } else {
@@ -325,6 +327,9 @@ impl Parser {
                     }
                     idx = idx + 1;
                 }
+                if !ended {
+                    return Err(ParseError::UnexpectedEof);
+                }
                 macros.insert(
                     ident,
                     MacroDefinition::new(nspan.clone(), name.clone(), args, statements),
-- 
2.43.0


From ef8e2c3e38c255b5b54fd4cf746a729cfc74741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:23 +0000
Subject: [PATCH 09/24] fix: print errors in one-character source files without
 panicking

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 891ccf5..d31b1e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1190,8 +1190,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc < bytes.len() - 1 && bytes[loc] == b'\n')
-            || (loc < bytes.len() - 2 && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !((loc + 1 < bytes.len() && bytes[loc] == b'\n')
+            || (loc + 2 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From 315ecb97bcf2033b2a8927b59bb605271f2d8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 10/24] fix: .cnop with a multiple of 0 or beyond the 32-bit
 range

---
 src/ast.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 85deadd..0a5eab8 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -247,20 +247,25 @@ impl Directive {
     }
 
     pub fn eval_cnop(pos: i32, add: &Expr, multiple: &Expr) -> Result<i32, EvaluationError> {
+        let overflow = EvaluationError::Overflow(add.span());
         let add = Directive::eval_cnop_expr(add)?;
         let multiple = Directive::eval_cnop_expr(multiple)?;
+        let mut mult = 0i32;
         if multiple == 0 {
-            Ok(add)
+            // There's nothing to align to.
+            mult = pos;
         } else {
-            let mut mult = 0;
             loop {
                 if pos <= mult {
                     break;
                 }
-                mult = mult + multiple;
+                mult = match mult.checked_add(multiple) {
+                    Some(mult) => mult,
+                    None => return Err(overflow),
+                };
             }
-            Ok(mult + add)
         }
+        mult.checked_add(add).ok_or(overflow)
     }
 
     pub fn size(&self, pos: i32) -> Result<i32, EvaluationError> {
-- 
2.43.0


From 71a12e59280052eb6c8c6d24c88b756e9370c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 11/24] fix: report positions beyond the 32-bit range

---
 src/asm.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 3f2ba62..d78a88f 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -598,6 +598,11 @@ struct NamesBuilder {
     locals: HashMap<String, HashMap<String, NameValue>>,
 }
 
+fn advance(pos: i32, size: i32, span: Span) -> Result<i32, AssemblyError> {
+    pos.checked_add(size)
+        .ok_or_else(|| AssemblyError::Overflow(span))
+}
+
 fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError> {
     let mut globals = HashMap::new();
     let mut locals = HashMap::new();
@@ -607,7 +612,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, name) => {
                 if name.starts_with(".") {
                     let val = NameValue {
@@ -627,7 +632,7 @@ fn compute_labels(statements: &Statements) -> Result<NamesBuilder, AssemblyError
                 }
             }
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement.span())?;
             }
             Variable(_, _name, _expr) | Alias(_, _name, _expr) => {}
             Comment(_) => {}
@@ -654,10 +659,10 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
     for statement in statements.iter() {
         use crate::ast::Statement::*;
         match statement {
-            Directive(dir) => pos += dir.size(pos)?,
+            Directive(dir) => pos = advance(pos, dir.size(pos)?, dir.span())?,
             Label(_, _name) => (),
             Instr(_, instr) => {
-                pos += instr.size() as i32;
+                pos = advance(pos, instr.size() as i32, statement.span())?;
             }
             Variable(_, name, expr) | Alias(_, name, expr) => {
                 let val = {
@@ -694,7 +699,7 @@ fn compute_names(statements: &Statements) -> Result<(usize, Names), AssemblyErro
         new_locals.insert(key.to_owned(), new_local);
     }
     Ok((
-        (max_pos + 1) as usize,
+        max_pos as usize + 1,
         Names {
             globals: new_globals,
             locals: new_locals,
-- 
2.43.0


From dd0c0c2df9c2e46dd86128e1e82e1a33ace2e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:47 +0000
Subject: [PATCH 12/24] fix: do not hang on a token followed by a combining
 character

---
 src/input.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 02505c0..ddd5543 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -90,7 +90,15 @@ impl<'b> Input<'b> {
         loop {
             match graphemes.next() {
                 Some(text) => {
-                    if (input.pos - start) + text.len() > num_bytes {
+                    let remaining = num_bytes - (input.pos - start);
+                    if text.len() > remaining {
+                        // A grapheme may extend past the end of the
+                        // text to skip, e.g. if a token is followed
+                        // by a combining character.
+                        if remaining > 0 {
+                            input.pos += remaining;
+                            input.column += 1;
+                        }
                         break;
                     }
                     input.pos += text.len();
-- 
2.43.0


From 8eafe094bf3a68b42291905169b14cdcd5eafe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 13/24] fix: report unexpected characters where they are

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 91c82d3..78d0962 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -519,7 +519,7 @@ pub fn lex_for_ws<'a>(
         cinput = input;
     }
     if current.is_none() {
-        Err(LexerError::UnexpectedChar(cinput.location()))
+        Err(LexerError::UnexpectedChar(skip_ws(&cinput).location()))
     } else {
         results.push(Token::new(
             TokenType::EOF,
-- 
2.43.0


From 73fa125014318ad0fbfb444c431b32427b7a6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 14/24] fix: report circular includes

A file that includes itself, directly or through others, made the
assembler overflow its stack.
---
 src/asm.rs | 26 +++++++++++++++++++++++---
 src/lib.rs | 10 ++++++++++
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index d78a88f..4c5efbe 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -17,7 +17,7 @@ use crate::parser;
 use crate::parser::{ParseError, Parser};
 use std;
 use std::collections::HashMap;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 
 pub fn assemble_file(files: &mut SourceFiles, filename: &str) -> Result<Vec<u8>, AssemblyError> {
@@ -48,18 +48,27 @@ fn read_statements(
             let input = Input::new(file.id(), file.contents());
             lexer::lex_input(&input)?
         };
-        replace_includes(&filename, &parser, &mut files, &tokens)?
+        let mut including = vec![real_path(&filename)];
+        replace_includes(&filename, &parser, &mut files, &tokens, &mut including)?
     };
     let stmts = parser.parse(&tokens)?;
     let stmts = replace_byte_includes(&filename, &mut files, &stmts)?;
     Ok(stmts)
 }
 
+/// The same path for all ways of naming a file.
+fn real_path(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
+/// Replaces the includes in `tokens`. `including` are the files whose
+/// includes are being replaced, from the main file to `filename`.
 fn replace_includes(
     filename: &Path,
     parser: &Parser,
     files: &mut SourceFiles,
     tokens: &[Token],
+    including: &mut Vec<PathBuf>,
 ) -> Result<Vec<Token>, AssemblyError> {
     let mut results = vec![];
     for line in parser::lines(tokens) {
@@ -71,19 +80,29 @@ fn replace_includes(
                     .map(|path| path.to_string_lossy().to_string())
                     .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
-                    Statement::Directive(Directive::Include(_span, typ, path)) => match typ {
+                    Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
                             let file = files.load(Some(filename), &path)?;
+                            let included = real_path(file.name());
+                            if including.contains(&included) {
+                                return Err(AssemblyError::CircularInclude(
+                                    span,
+                                    path.display().to_string(),
+                                ));
+                            }
                             let new_tokens = {
                                 let input = Input::new(file.id(), file.contents());
                                 lexer::lex_input(&input)?
                             };
+                            including.push(included);
                             let new_tokens = replace_includes(
                                 &file.name().to_owned(),
                                 parser,
                                 files,
                                 &new_tokens,
+                                including,
                             )?;
+                            including.pop();
                             for token in new_tokens.iter() {
                                 results.push(token.clone());
                             }
@@ -397,6 +416,7 @@ pub enum AssemblyError {
     NameAlreadyExists(Span, Span, String),
     InvalidCodeLocation(Span, i32),
     InvalidPath(Span, Expr),
+    CircularInclude(Span, String),
     InvalidIconSize(String, usize, usize),
     InvalidPaletteSize(String, usize, usize),
     SpriteTooWide(Span, String, usize, usize),
diff --git a/src/lib.rs b/src/lib.rs
index d31b1e6..66b3bd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -939,6 +939,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        CircularInclude(span, path) => {
+            stderr
+                .write("The file ")
+                .cyan()
+                .write(path)
+                .reset()
+                .writeln(" includes itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         NoSuchMacro(span, name) => {
             stderr
                 .write("No macro definition found for name ")
-- 
2.43.0


From 651b811da8e895dcdfe02e6ba9a27264418f628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 15/24] fix: report recursive macros

A macro that uses itself, directly or through others, made the
assembler overflow its stack.
---
 src/asm.rs | 19 ++++++++++++++++++-
 src/lib.rs | 10 ++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 4c5efbe..7064c16 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -476,6 +476,7 @@ pub enum AssemblyError {
     ImmediateValueNotAllowedHere(Span),
     IndirectionModeNotAllowedHere(Span),
     NoSuchMacro(Span, String),
+    RecursiveMacro(Span, String),
     InvalidSpriteType(Span, String),
 }
 
@@ -732,7 +733,14 @@ fn expand_macros(statements: &Statements) -> Result<Statements, AssemblyError> {
     for stmt in statements.iter() {
         match stmt {
             Statement::MacroCall(span, name, args) => {
-                let mut stmts = expand(statements, span.clone(), name.to_owned(), args)?;
+                let mut expanding = vec![];
+                let mut stmts = expand(
+                    statements,
+                    span.clone(),
+                    name.to_owned(),
+                    args,
+                    &mut expanding,
+                )?;
                 new.append(&mut stmts);
             }
             _ => {
@@ -800,11 +808,14 @@ fn gen_labels(statements: &[MacroStatement]) -> Result<HashMap<String, String>,
     Ok(map)
 }
 
+/// Expands a macro call. `expanding` are the macros whose expansion
+/// contains the call.
 fn expand(
     stmts: &Statements,
     span: Span,
     name: String,
     args: &[Arg],
+    expanding: &mut Vec<MacroIdentifier>,
 ) -> Result<Vec<Statement>, AssemblyError> {
     let ident = MacroIdentifier::new(name.clone(), args.len());
     let macrodef = match stmts.macro_def(&ident) {
@@ -821,6 +832,10 @@ fn expand(
             args.len(),
         ));
     }
+    if expanding.contains(&ident) {
+        return Err(AssemblyError::RecursiveMacro(span, name));
+    }
+    expanding.push(ident);
     let argmap = {
         let mut argmap = HashMap::new();
         let arg_defs = macrodef.args();
@@ -846,6 +861,7 @@ fn expand(
                             ispan.with_parent(span.clone()),
                             iname.to_owned(),
                             new_args.as_slice(),
+                            expanding,
                         )?;
                         statements.append(&mut new_stmts);
                     }
@@ -878,6 +894,7 @@ fn expand(
             }
         }
     }
+    expanding.pop();
     Ok(statements)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index 66b3bd8..9d10ea7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -959,6 +959,16 @@ fn print_error(files: &SourceFiles, err: &AssemblyError, stderr: &mut ColorWrite
                 .newline();
             highlight_line(span, "", files, stderr);
         }
+        RecursiveMacro(span, name) => {
+            stderr
+                .write("The macro ")
+                .cyan()
+                .write(name)
+                .reset()
+                .writeln(" uses itself.")
+                .newline();
+            highlight_line(span, "", files, stderr);
+        }
         InvalidIconSize(path, w, h) => {
             stderr
                 .write("Invalid icon size in ")
-- 
2.43.0


From aeaa712b5bc1b0e0e32152c6ba9052ccf7156e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 16/24] fix: print octal numbers as octal numbers

---
 src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expression.rs b/src/expression.rs
index 9a204c2..05e0033 100644
--- a/src/expression.rs
+++ b/src/expression.rs
@@ -415,7 +415,7 @@ impl fmt::Display for Expr {
                         write!(f, "${:04X}", num)
                     }
                 }
-                Radix::Octal => write!(f, "${:04o}", num),
+                Radix::Octal => write!(f, "0o{:04o}", num),
                 Radix::Binary => write!(f, "%{:08b}", num),
             },
             Expr::UpperByte(_, expr) => {
-- 
2.43.0


From 2c532d9627f545a63db9ad5e01794609360dfbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:22 +0000
Subject: [PATCH 17/24] fix: print .text and .string so that they can be read
 back

---
 src/ast.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 0a5eab8..0296107 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -371,10 +371,10 @@ impl fmt::Display for Directive {
                 write!(f, "")
             }
             Directive::Text(_, size, bytes) => {
-                write!(f, "  .text {} {}", size, escape_string(&bytes))
+                write!(f, "  .text {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::String(_, size, bytes) => {
-                write!(f, "  .string {} {}", size, escape_string(&bytes))
+                write!(f, "  .string {} \"{}\"", size, escape_string(&bytes))
             }
             Directive::Org(_, num) => {
                 if *num == 0 {
@@ -617,24 +617,12 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
         }
         let current = bytes[index];
         match current {
-            // \a
-            0x07 => {
-                escaped.push(0x5C);
-                escaped.push(0x61)
-            }
-
             // \b
             0x08 => {
                 escaped.push(0x5C);
                 escaped.push(0x62)
             }
 
-            // \f
-            0x0C => {
-                escaped.push(0x5C);
-                escaped.push(0x66)
-            }
-
             // \n
             0x0A => {
                 escaped.push(0x5C);
@@ -653,18 +641,17 @@ fn escape_string<'a>(bytes: &Vec<u8>) -> String {
                 escaped.push(0x74)
             }
 
-            // \v
-            0x0B => {
-                escaped.push(0x5C);
-                escaped.push(0x76)
-            }
-
             // \0
             0x00 => {
                 escaped.push(b'\\');
                 escaped.push(b'0');
             }
 
+            b'"' | b'\\' => {
+                escaped.push(b'\\');
+                escaped.push(current);
+            }
+
             _ => escaped.push(current),
         }
         index = index + 1;
-- 
2.43.0


From 75c86a32bac23ff00ee043445e04253521a5c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 18/24] fix: report VMS files that are too short instead of
 panicking

---
 src/disasm.rs | 1 +
 src/lib.rs    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index 3891b71..ddc6b0d 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -11,6 +11,7 @@ pub enum DisasmError {
     NoInstruction(usize, u8),
     NoSuchFile(String, std::io::Error),
     UnknownFileType(String),
+    FileTooShort(String, usize),
 }
 
 pub fn disassemble(
diff --git a/src/lib.rs b/src/lib.rs
index 9d10ea7..8bc384e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -361,6 +361,12 @@ fn generate_vmi(
             .map_err(|e| DisasmError::NoSuchFile(input_file.to_string(), e))?;
         contents
     };
+    if vms_bytes.len() < offset + 0x30 {
+        return Err(DisasmError::FileTooShort(
+            input_file.to_string(),
+            vms_bytes.len(),
+        ));
+    }
 
     let basename = {
         let parts: Vec<&str> = input_file.split('/').collect();
-- 
2.43.0


From 5f7a22ed5ad9a39a557cddc56e02dc7a93058b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:42 +0000
Subject: [PATCH 19/24] fix: do not show the line ending at the end of a file
 in error messages

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bc384e..44ef206 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1216,8 +1216,8 @@ fn end_of_line(pos: usize, text: &str) -> usize {
     let bytes = text.as_bytes();
     let mut loc = pos;
     while loc < bytes.len()
-        && !((loc + 1 < bytes.len() && bytes[loc] == b'\n')
-            || (loc + 2 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
+        && !(bytes[loc] == b'\n'
+            || (loc + 1 < bytes.len() && bytes[loc] == b'\r' && bytes[loc + 1] == b'\n'))
     {
         loc += 1;
     }
-- 
2.43.0


From ce51acd271b17211de8059fc77415cd7aa67056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:23 +0000
Subject: [PATCH 20/24] fix: disassembly names only jump targets that have an
 instruction

Labels were generated for every jump target, including those outside the image,
so the listing used labels it never defined and did not assemble.
---
 src/disasm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disasm.rs b/src/disasm.rs
index ddc6b0d..fe2b53d 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -205,6 +205,8 @@ fn build_names(graph: &InstructionGraph<i32, u8>) -> Names {
     compute_bit_aliases(&mut names);
     compute_aliases(&mut names);
     compute_labels(graph, &mut names);
+    // A target without an instruction has no place for its label.
+    names.labels.retain(|pos, _| graph.contains_instr(*pos));
     names
 }
 
-- 
2.43.0


From e93a8e2ef467bdd1718ce4a200aa804161b9fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 21/24] fix: disassembly listings reproduce the size of the
 image

The final .cnop padded to the wrong size whenever the image was not a multiple of
0x200 bytes, or ended in more than 0x200 zero bytes.
---
 src/disasm.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index fe2b53d..c143b54 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -119,8 +119,13 @@ pub fn disassemble(
         }
     }
 
-    stmts.push_comment("\nPad size of binary");
-    stmts.push_cnop(bytes.len() % 0x200, 0x200);
+    if let Some(last) = bytes.len().checked_sub(1) {
+        if !mask[last] && !written_mask[last] {
+            stmts.push_comment("\nPad size of binary");
+            stmts.push_org(last);
+            stmts.push_bytes(last, &bytes[last..]);
+        }
+    }
 
     stmts.push_comment("\nPSW bits");
     for (name, value) in names.sorted_psw_bits() {
@@ -1139,10 +1144,6 @@ impl DStatements {
         self.statements.push(DStatement::bytes(pos, bytes))
     }
 
-    pub fn push_cnop(&mut self, add: usize, multiple: usize) {
-        self.statements.push(DStatement::cnop(add, multiple));
-    }
-
     pub fn push_org(&mut self, pos: usize) {
         self.statements.push(DStatement::org(pos));
     }
@@ -1227,18 +1228,6 @@ impl DStatement {
         self.pos.map(|x| x)
     }
 
-    pub fn cnop(add: usize, multiple: usize) -> DStatement {
-        DStatement::new(
-            None,
-            Statement::Directive(Directive::Cnop(
-                Span::default(),
-                Expr::num(add as i32),
-                Expr::num(multiple as i32),
-            )),
-            None,
-        )
-    }
-
     pub fn alias(name: &str, value: Expr) -> DStatement {
         DStatement::new(
             None,
-- 
2.43.0


From ca4ab2b8ad144298fdb837259d7d15d7dfce0d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:00 +0000
Subject: [PATCH 22/24] fix: resolve eyecatch paths against the file that names
 them

Only the included file's own path was made relative to the including
file; an eyecatch named in a nested include was searched beside the main
file. Option values equal to the path were replaced as well.
---
 src/asm.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 7064c16..d7adf01 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -75,10 +75,6 @@ fn replace_includes(
         let mut stream = parser::TokenStream::from(line);
         match parser.parse_directive(&mut stream) {
             Ok(Some(stmt)) => {
-                let original_path = stmt
-                    .path()
-                    .map(|path| path.to_string_lossy().to_string())
-                    .unwrap_or(String::new());
                 match stmt.fixup_paths(files, Some(filename)) {
                     Statement::Directive(Directive::Include(span, typ, path)) => match typ {
                         IncludeType::Asm => {
@@ -122,11 +118,26 @@ fn replace_includes(
                             }
                         }
                         IncludeType::Bytes | IncludeType::Icon(_, _) | IncludeType::Sprite(..) => {
+                            let eyecatch_span = match &typ {
+                                IncludeType::Icon(_, Some(ByteValue::String(span, _))) => {
+                                    Some(span)
+                                }
+                                _ => None,
+                            };
+                            let mut path = Some(path);
                             for token in line.iter() {
                                 if let TokenType::String(string) = token.token_type() {
-                                    if string == &original_path {
+                                    // The first string is the included file.
+                                    let new_path = match path.take() {
+                                        Some(path) => Some(path),
+                                        None if Some(token.span()) == eyecatch_span => {
+                                            Some(files.path(Some(filename), string))
+                                        }
+                                        None => None,
+                                    };
+                                    if let Some(new_path) = new_path {
                                         results.push(Token::new(
-                                            TokenType::String(path.display().to_string()),
+                                            TokenType::String(new_path.display().to_string()),
                                             token.span().clone(),
                                         ));
                                         continue;
-- 
2.43.0


From 347a26c5ff868c088ec6043751f16db0d0e5c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:00 +0000
Subject: [PATCH 23/24] fix: reject icon speeds that do not fit in a word

They were truncated silently.
---
 src/asm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index d7adf01..1450b1f 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -192,7 +192,16 @@ fn replace_byte_includes(
                 }
                 IncludeType::Icon(ref speed_opt, ref eyecatch_opt) => {
                     let speed = match speed_opt {
-                        Some(expr) => Some(expr.eval(&HashMap::new())? as u16),
+                        Some(expr) => {
+                            let value = expr.eval(&HashMap::new())?;
+                            if value < i16::MIN as i32 || value > u16::MAX as i32 {
+                                return Err(AssemblyError::WordOutOfRange {
+                                    span: expr.span(),
+                                    value,
+                                });
+                            }
+                            Some(value as u16)
+                        }
                         None => None,
                     };
                     let eyecatch = match eyecatch_opt {
-- 
2.43.0


From 15bc129a2d88d22947b0eff236a0be453b5bd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:27 +0000
Subject: [PATCH 24/24] fix: name the instruction two bytes back in a listing's
 overlap remark

---
 src/disasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disasm.rs b/src/disasm.rs
index c143b54..83b02fa 100644
--- a/src/disasm.rs
+++ b/src/disasm.rs
@@ -1075,7 +1075,7 @@ impl<Ex, IM> InstructionGraph<Ex, IM> {
     pub fn find_overlaps(&self, pos: usize) -> Vec<usize> {
         let mut overlaps = vec![];
         if let Some(instr) = self.instrs.get(&pos) {
-            for idx in 1..2 {
+            for idx in 1..3 {
                 if pos >= idx {
                     let loc = pos - idx;
                     if let Some(instr2) = self.instrs.get(&loc) {
-- 
2.43.0

