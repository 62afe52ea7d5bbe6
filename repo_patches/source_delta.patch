From 400f78c6515338678f4ca979b71dbeead77b4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 01/45] fix: do not lex the dash of a closing delimiter as part
 of the word before it

---
 crates/ludtwig-parser/src/lexer.rs | 56 +++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/lexer.rs b/crates/ludtwig-parser/src/lexer.rs
index d3dedc2..864541f 100644
--- a/crates/ludtwig-parser/src/lexer.rs
+++ b/crates/ludtwig-parser/src/lexer.rs
@@ -2,6 +2,9 @@ use logos::Logos;
 
 use crate::syntax::untyped::{SyntaxKind, TextRange, TextSize};
 
+const SPAN_EXPECT: &str =
+    "lexer span range should fit into a u32 (file should be smaller than 4GB)";
+
 /// Lex the source code into a Vec of tokens with their corresponding span (position in source code).
 /// These tokens are produced by a dumb lexer and don't have any meaning / semantic attached to them.
 pub(crate) fn lex(source: &str) -> Vec<Token<'_>> {
@@ -10,12 +13,31 @@ pub(crate) fn lex(source: &str) -> Vec<Token<'_>> {
     let mut result = Vec::with_capacity(source.len() / 4);
 
     while let Some(kind) = lexer.next() {
+        // words can contain dashes, but a trailing dash which belongs to a closing delimiter
+        // (like in '{{ foo-}}' or '<!--foo-->') is not part of the word
+        if kind == Ok(SyntaxKind::TK_WORD) {
+            if let Some((word_kind, word_end)) = word_before_closing_delimiter(source, lexer.span())
+            {
+                let span = lexer.span();
+                let start = TextSize::try_from(span.start).expect(SPAN_EXPECT);
+                let end = TextSize::try_from(word_end).expect(SPAN_EXPECT);
+                result.push(Token {
+                    kind: word_kind,
+                    text: &source[span.start..word_end],
+                    range: TextRange::new(start, end),
+                });
+
+                // continue lexing after the shortened word
+                lexer = SyntaxKind::lexer(source);
+                lexer.bump(word_end);
+                continue;
+            }
+        }
+
         let range = {
             let span = lexer.span();
-            let start = TextSize::try_from(span.start)
-                .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
-            let end = TextSize::try_from(span.end)
-                .expect("lexer span range should fit into a u32 (file should be smaller than 4GB)");
+            let start = TextSize::try_from(span.start).expect(SPAN_EXPECT);
+            let end = TextSize::try_from(span.end).expect(SPAN_EXPECT);
             TextRange::new(start, end)
         };
 
@@ -30,6 +52,32 @@ pub(crate) fn lex(source: &str) -> Vec<Token<'_>> {
     result
 }
 
+/// If the word at the given span ends with dashes that belong to a following closing delimiter
+/// (`-}}`, `-%}`, `-#}` or `-->`), then this returns the kind and the end of the word without them.
+fn word_before_closing_delimiter(
+    source: &str,
+    span: std::ops::Range<usize>,
+) -> Option<(SyntaxKind, usize)> {
+    let text = &source[span.clone()];
+    let rest = &source[span.end..];
+    let delimiter_dashes = if text.ends_with("--") && rest.starts_with('>') {
+        2
+    } else if text.ends_with('-') && ["}}", "%}", "#}"].iter().any(|d| rest.starts_with(d)) {
+        1
+    } else {
+        return None;
+    };
+
+    let word = &text[..text.len() - delimiter_dashes];
+    let mut word_lexer = SyntaxKind::lexer(word);
+    let kind = word_lexer.next()?.ok()?;
+    if word_lexer.span().end != word.len() {
+        return None; // what is left is not a single token
+    }
+
+    Some((kind, span.start + word.len()))
+}
+
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub(crate) struct Token<'source> {
     pub(crate) kind: SyntaxKind,
-- 
2.43.0


From 92256119f9c1e394976c63b531928dc236d8bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 02/45] fix: recognize 'not in' and 'is not' independent of the
 whitespace inside and the token after it

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 39 +++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 3c87813..c359452 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -553,15 +553,8 @@ pub enum SyntaxKind {
 
 /// workaround to properly lex 'not insider' to TK_NOT + TK_WS + TK_WORD instead of TK_NOT_IN + TK_WORD
 fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
-    const SUFFIX: &str = " in";
-    if lexer.remainder().starts_with(SUFFIX) {
-        let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
-            lexer.bump(SUFFIX.len());
-            SyntaxKind::TK_NOT_IN
-        } else {
-            SyntaxKind::TK_NOT
-        }
+    if bump_following_keyword(lexer, "in") {
+        SyntaxKind::TK_NOT_IN
     } else {
         SyntaxKind::TK_NOT
     }
@@ -569,20 +562,30 @@ fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
 
 /// workaround to properly lex 'is nothing' to TK_IS + TK_WS + TK_WORD instead of TK_IS_NOT + TK_WORD
 fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
-    const SUFFIX: &str = " not";
-    if lexer.remainder().starts_with(SUFFIX) {
-        let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
-            lexer.bump(SUFFIX.len());
-            SyntaxKind::TK_IS_NOT
-        } else {
-            SyntaxKind::TK_IS
-        }
+    if bump_following_keyword(lexer, "not") {
+        SyntaxKind::TK_IS_NOT
     } else {
         SyntaxKind::TK_IS
     }
 }
 
+/// Consumes whitespace followed by the keyword (as a whole word), if that is what comes next.
+fn bump_following_keyword(lexer: &mut Lexer<'_, SyntaxKind>, keyword: &str) -> bool {
+    let remainder = lexer.remainder();
+    let after_ws = remainder.trim_start_matches([' ', '\t']);
+    let Some(after) = after_ws.strip_prefix(keyword) else {
+        return false;
+    };
+    if after_ws.len() == remainder.len()
+        || after.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-')
+    {
+        return false;
+    }
+
+    lexer.bump(remainder.len() - after.len());
+    true
+}
+
 #[macro_export]
 macro_rules! T {
     [ws] => { $crate::syntax::untyped::SyntaxKind::TK_WHITESPACE };
-- 
2.43.0


From ff04eb54cec00ab965a732e135fce962fe240ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 03/45] fix: accept any amount of whitespace inside of
 operators and tests with two words

---
 crates/ludtwig-parser/src/syntax/untyped.rs       | 10 +++++-----
 crates/ludtwig/src/check/rules/twig_valid_test.rs |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index c359452..62208d5 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -263,7 +263,7 @@ pub enum SyntaxKind {
     TK_ENDVERBATIM,
     #[token("only")]
     TK_ONLY,
-    #[token("ignore missing")]
+    #[regex(r"ignore[ \t]+missing")]
     TK_IGNORE_MISSING,
     #[token("with")]
     TK_WITH,
@@ -297,9 +297,9 @@ pub enum SyntaxKind {
     TK_IN,
     #[token("matches")]
     TK_MATCHES,
-    #[token("starts with")]
+    #[regex(r"starts[ \t]+with")]
     TK_STARTS_WITH,
-    #[token("ends with")]
+    #[regex(r"ends[ \t]+with")]
     TK_ENDS_WITH,
     #[token("is", cb_is)]
     TK_IS,
@@ -311,7 +311,7 @@ pub enum SyntaxKind {
     TK_ODD,
     #[token("defined")]
     TK_DEFINED,
-    #[token("same as")]
+    #[regex(r"same[ \t]+as")]
     TK_SAME_AS,
     #[token("as")]
     TK_AS,
@@ -319,7 +319,7 @@ pub enum SyntaxKind {
     TK_NONE,
     #[token("null", ignore(case))]
     TK_NULL,
-    #[token("divisible by")]
+    #[regex(r"divisible[ \t]+by")]
     TK_DIVISIBLE_BY,
     #[token("constant")]
     TK_CONSTANT,
diff --git a/crates/ludtwig/src/check/rules/twig_valid_test.rs b/crates/ludtwig/src/check/rules/twig_valid_test.rs
index 6ab1098..f4cdfd0 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_test.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_test.rs
@@ -24,11 +24,16 @@ impl Rule for RuleTwigValidTest {
 
         let rhs = binary_expr.rhs_expression()?;
         let name_token = extract_test_name(&rhs)?;
-        let test_name = name_token.text();
+        // tests like 'same as' may be written with more whitespace between the words
+        let test_name = name_token
+            .text()
+            .split_whitespace()
+            .collect::<Vec<_>>()
+            .join(" ");
 
         let valid_tests = &ctx.config().twig.valid_tests;
 
-        if !valid_tests.iter().any(|t| t == test_name) {
+        if !valid_tests.iter().any(|t| *t == test_name) {
             let result = self
                 .create_result(
                     Severity::Warning,
-- 
2.43.0


From 15fb37fb388507b046915609017634db92c77645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 04/45] fix: handle escaped backslashes and '#' in twig strings
 only directly behind each other

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..bcc1db7 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -96,11 +96,16 @@ pub(crate) fn parse_twig_string(
         parser,
         |p| p.at(quote_kind),
         |p| {
-            if p.at_following(&[T!["\\"], quote_kind]) {
-                // escaped quote should be consumed
-                p.bump();
-                p.bump();
-            } else if p.at_following(&[T!["#"], T!["{"]]) {
+            if p.at(T!["\\"]) {
+                // directly escaped backslash, quote or interpolation should be consumed
+                let backslash_end = p.bump().range.end();
+                if p.peek_token().is_some_and(|t| {
+                    t.range.start() == backslash_end
+                        && (t.kind == quote_kind || t.kind == T!["\\"] || t.kind == T!["#"])
+                }) {
+                    p.bump();
+                }
+            } else if p.at(T!["#"]) && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From 3c941c26fba728b0ab8a5122c6a44af2155ca932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 05/45] fix: treat '#{' in single quoted twig strings as plain
 text

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 12 +++++-------
 .../ludtwig/src/check/rules/twig_string_quotation.rs |  4 ++++
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index bcc1db7..4bef840 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -80,17 +80,12 @@ fn parse_twig_number(parser: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn parse_twig_string(
     parser: &mut Parser,
-    mut interpolation_allowed: bool,
+    interpolation_allowed: bool,
 ) -> CompletedMarker {
     debug_assert!(parser.at_set(&[T!["\""], T!["'"]]));
     let m = parser.start();
     let starting_quote_token = parser.bump();
     let quote_kind = starting_quote_token.kind;
-    interpolation_allowed = match quote_kind {
-        T!["\""] => interpolation_allowed,
-        _ => false, // interpolation only allowed in double quoted strings,
-    };
-
     let m_inner = parser.start();
     parse_many(
         parser,
@@ -105,7 +100,10 @@ pub(crate) fn parse_twig_string(
                 }) {
                     p.bump();
                 }
-            } else if p.at(T!["#"]) && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"]) {
+            } else if quote_kind == T!["\""] // no interpolation in single quoted strings
+                && p.at(T!["#"])
+                && p.peek_nth_token(1).is_some_and(|t| t.kind == T!["{"])
+            {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..3d09b85 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    if correct_quote == '"' && inner_text.to_string().contains("#{") {
+        return result; // this would become an interpolation in double quotes
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
-- 
2.43.0


From 085481241d23829524d053e43374c2b140330f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 06/45] fix: accept keywords as names of blocks, macros and
 named arguments

---
 .../src/grammar/twig/literal.rs               | 15 ++++-
 .../ludtwig-parser/src/grammar/twig/tags.rs   | 63 ++++++++++---------
 2 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 4bef840..924873f 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -462,11 +462,13 @@ pub(crate) fn parse_twig_arrow_function(
 }
 
 pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<CompletedMarker> {
-    // must be specific here with word followed by equal, because otherwise it could
+    // must be specific here with name followed by equal, because otherwise it could
     // be a normal variable or another function call or something else..
-    if parser.at_following(&[T![word], T!["="]]) {
+    if (parser.at(T![word]) || at_twig_name(parser))
+        && parser.peek_next_non_trivia_kind() == Some(T!["="])
+    {
         let named_arg_m = parser.start();
-        parser.bump();
+        parser.bump_as(T![word]);
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
         parse_twig_expression(parser);
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
@@ -475,6 +477,13 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
     }
 }
 
+/// Names can be spelled like any keyword
+pub(crate) fn at_twig_name(parser: &mut Parser) -> bool {
+    parser
+        .peek_token()
+        .is_some_and(|t| TWIG_NAME_REGEX.is_match(t.text))
+}
+
 pub(crate) fn parse_twig_name(parser: &mut Parser) -> Option<CompletedMarker> {
     // special case to allow for 'same as' and 'divisible by' twig test ('is' / 'is not' operator)
     let is_at_special = parser.at_set(&[T!["same as"], T!["divisible by"]]);
diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..77d305b 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -3,8 +3,8 @@
 use crate::T;
 use crate::grammar::twig::expression::parse_twig_expression;
 use crate::grammar::twig::literal::{
-    parse_twig_filter, parse_twig_function_argument, parse_twig_hash, parse_twig_name,
-    parse_twig_string,
+    at_twig_name, parse_twig_filter, parse_twig_function_argument, parse_twig_hash,
+    parse_twig_name, parse_twig_string,
 };
 use crate::grammar::twig::shopware::{BlockParseResult, parse_shopware_twig_block_statement};
 use crate::grammar::{ParseFunction, parse_many};
@@ -286,6 +286,17 @@ fn parse_twig_with(
     parser.complete(wrapper_m, SyntaxKind::TWIG_WITH)
 }
 
+/// Expect the name of a block or macro, which can be spelled like any keyword
+fn expect_name(parser: &mut Parser, recovery_set: &[SyntaxKind]) -> Option<String> {
+    if at_twig_name(parser) {
+        return Some(parser.bump_as(T![word]).text.to_owned());
+    }
+
+    parser
+        .expect(T![word], recovery_set)
+        .map(|t| t.text.to_owned())
+}
+
 fn parse_twig_macro(
     parser: &mut Parser,
     outer: Marker,
@@ -293,20 +304,18 @@ fn parse_twig_macro(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["macro"]));
     parser.bump();
-    let macro_name = parser
-        .expect(
-            T![word],
-            &[
-                T!["("],
-                T![")"],
-                T!["endmacro"],
-                T!["%}"],
-                T!["-%}"],
-                T!["~%}"],
-                T!["</"],
-            ],
-        )
-        .map(|t| t.text.to_owned());
+    let macro_name = expect_name(
+        parser,
+        &[
+            T!["("],
+            T![")"],
+            T!["endmacro"],
+            T!["%}"],
+            T!["-%}"],
+            T!["~%}"],
+            T!["</"],
+        ],
+    );
 
     // macro must have parentheses (arguments can be zero)
     let arguments_m = parser.start();
@@ -364,14 +373,14 @@ fn parse_twig_macro(
     );
     parser.expect(T!["endmacro"], &[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
     // check for optional name behind endmacro
-    if parser.at(T![word]) {
-        let end_macro_name_token = parser.bump();
+    if parser.at(T![word]) || at_twig_name(parser) {
+        let end_macro_name_token = parser.bump_as(T![word]);
         if let Some(macro_name) = macro_name {
             if end_macro_name_token.text != macro_name {
                 let parser_err = ParseErrorBuilder::new(format!(
                     "nothing or same twig macro name as opening ({macro_name})"
                 ))
-                .at_token(end_macro_name_token);
+                .at_token(&end_macro_name_token);
 
                 parser.add_error(parser_err);
                 parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
@@ -1167,12 +1176,10 @@ fn parse_twig_block(
 ) -> CompletedMarker {
     debug_assert!(parser.at(T!["block"]));
     parser.bump();
-    let block_name = parser
-        .expect(
-            T![word],
-            &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
-        )
-        .map(|t| t.text.to_owned());
+    let block_name = expect_name(
+        parser,
+        &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"], T!["endblock"]],
+    );
     // look for optional shortcut
     let mut found_shortcut = false;
     if !parser.at_twig_block_close() {
@@ -1210,14 +1217,14 @@ fn parse_twig_block(
         );
         parser.expect(T!["endblock"], &[T!["</"], T!["%}"], T!["-%}"], T!["~%}"]]);
         // check for optional name behind endblock
-        if parser.at(T![word]) {
-            let end_block_name_token = parser.bump();
+        if parser.at(T![word]) || at_twig_name(parser) {
+            let end_block_name_token = parser.bump_as(T![word]);
             if let Some(block_name) = block_name {
                 if end_block_name_token.text != block_name {
                     let parser_err = ParseErrorBuilder::new(format!(
                         "nothing or same twig block name as opening ({block_name})"
                     ))
-                    .at_token(end_block_name_token);
+                    .at_token(&end_block_name_token);
 
                     parser.add_error(parser_err);
                     parser.recover(&[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]]);
-- 
2.43.0


From 014b8d5c89188ea9b0d05659fe244d4c18010f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 07/45] fix: find the tag of attributes which are nested in
 twig syntax

---
 crates/ludtwig-parser/src/syntax/typed.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..13fcc07 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -273,11 +273,8 @@ impl HtmlAttribute {
     /// Parent starting html tag
     #[must_use]
     pub fn html_tag(&self) -> Option<HtmlStartingTag> {
-        // first parent is HtmlAttributeList, the parent of that is the tag itself
-        self.syntax
-            .parent()?
-            .parent()
-            .and_then(HtmlStartingTag::cast)
+        // the attribute may be nested in twig syntax (like an if) inside the HtmlAttributeList
+        self.syntax.ancestors().find_map(HtmlStartingTag::cast)
     }
 }
 
-- 
2.43.0


From 4c29b5b6f76102a3fea55dfbd4ddd2c2f3b3fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 08/45] fix: never suggest an empty name

---
 crates/ludtwig/src/check/naming_convention.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..802b196 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -78,7 +78,7 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_ascii_alpha_snake_case(&attempt, screaming) {
+    if !attempt.is_empty() && is_valid_ascii_alpha_snake_case(&attempt, screaming) {
         return Some(attempt);
     }
 
@@ -160,7 +160,7 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_alphanumeric_kebab_case(&attempt) {
+    if !attempt.is_empty() && is_valid_alphanumeric_kebab_case(&attempt) {
         return Some(attempt);
     }
 
-- 
2.43.0


From 016b8cdfc8a6c86bb06a164f902bf4c9541d1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 09/45] fix: rename the endblock name together with the block
 name

---
 crates/ludtwig-parser/src/syntax/typed.rs     |  6 ++++++
 .../check/rules/twig_block_name_snake_case.rs | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index 13fcc07..e8a2691 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -169,6 +169,12 @@ impl TwigStartingBlock {
 
 ast_node!(TwigEndingBlock, SyntaxKind::TWIG_ENDING_BLOCK);
 impl TwigEndingBlock {
+    /// Optional name of the twig block behind endblock
+    #[must_use]
+    pub fn name(&self) -> Option<SyntaxToken> {
+        support::token(&self.syntax, T![word])
+    }
+
     /// Parent complete twig block
     #[must_use]
     pub fn twig_block(&self) -> Option<TwigBlock> {
diff --git a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
index fcec3e8..4fcffd0 100644
--- a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
@@ -11,7 +11,8 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 
     fn check_node(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let block_name = TwigStartingBlock::cast(node)?.name()?;
+        let starting_block = TwigStartingBlock::cast(node)?;
+        let block_name = starting_block.name()?;
         if !is_valid_ascii_alpha_snake_case(block_name.text(), false) {
             // name is not valid ascii snake case
             let mut result = self
@@ -23,11 +24,25 @@ impl Rule for RuleTwigBlockNameSnakeCase {
 
             // try make a suggestion
             if let Some(suggested_name) = try_make_snake_case(block_name.text(), false) {
+                // the optional name behind endblock must stay the same as the block name
+                let ending_name = starting_block
+                    .twig_block()
+                    .and_then(|block| block.ending_block())
+                    .and_then(|ending| ending.name())
+                    .filter(|ending_name| ending_name.text() == block_name.text());
+
                 result = result.suggestion(
                     block_name.text_range(),
-                    suggested_name,
+                    suggested_name.clone(),
                     "Try this name instead",
                 );
+                if let Some(ending_name) = ending_name {
+                    result = result.suggestion(
+                        ending_name.text_range(),
+                        suggested_name,
+                        "Try this name instead",
+                    );
+                }
             }
 
             return Some(vec![result]);
-- 
2.43.0


From b055a6270dbc531cdadf0ccf4242ba8e2cc929e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 10/45] fix: keep word operators separated from their operands

---
 crates/ludtwig/src/check/rule.rs              | 19 +++++++++++++++++++
 .../ludtwig/src/check/rules/twig_logic_and.rs |  6 ++++--
 .../ludtwig/src/check/rules/twig_logic_or.rs  |  6 ++++--
 .../check/rules/twig_use_is_not_same_as.rs    |  8 ++++++--
 .../src/check/rules/twig_use_is_same_as.rs    | 10 ++++++++--
 5 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..869ba99 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -210,6 +210,25 @@ pub struct CheckSuggestion {
     pub message: String,
 }
 
+/// Surround the word operator with spaces where the replaced operator has no whitespace around it
+/// (e.g. `a&&b` must become `a and b`).
+pub fn word_operator_replacement(replaced: &SyntaxToken, word_operator: &str) -> String {
+    let is_separated =
+        |neighbor: Option<SyntaxToken>| neighbor.is_none_or(|t| t.kind().is_trivia());
+    let before = if is_separated(replaced.prev_token()) {
+        ""
+    } else {
+        " "
+    };
+    let after = if is_separated(replaced.next_token()) {
+        ""
+    } else {
+        " "
+    };
+
+    format!("{before}{word_operator}{after}")
+}
+
 #[derive(Debug, Clone, Copy)]
 pub enum Severity {
     /// Errors which must be fixed for the template to work correctly
diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..a16837c 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, word_operator_replacement,
+};
 
 pub struct RuleTwigLogicAnd;
 
@@ -21,7 +23,7 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    word_operator_replacement(&binary_expr_op, "and"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..b9943e0 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, word_operator_replacement,
+};
 
 pub struct RuleTwigLogicOr;
 
@@ -22,7 +24,7 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    word_operator_replacement(&binary_expr_op, "or"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..eb4a599 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,4 @@
-use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rule::{CheckResult, RuleExt, RuleRunContext, word_operator_replacement};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -29,7 +29,11 @@ impl Rule for RuleTwigUseIsNotSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    word_operator_replacement(&op, "is not same as").trim_end(),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..a90bfdd 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, word_operator_replacement,
+};
 
 pub struct RuleTwigUseIsSameAs;
 
@@ -29,7 +31,11 @@ impl Rule for RuleTwigUseIsSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    word_operator_replacement(&op, "is same as").trim_end(),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
-- 
2.43.0


From 713991a3fef040ee233a53d4404b73b2d68afb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 11/45] fix: find the right operand of chained binary
 expressions

---
 crates/ludtwig-parser/src/syntax/typed.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index e8a2691..985812b 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -322,15 +322,26 @@ impl TwigBinaryExpression {
 
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        let operator = self.operator()?;
+        self.syntax
+            .children()
+            .take_while(|it| it.text_range().end() <= operator.text_range().start())
+            .find_map(TwigExpression::cast)
+    }
+
+    /// The left operand is only wrapped in a [`TwigExpression`] if it isn't a binary expression itself.
+    #[must_use]
+    pub fn lhs_binary_expression(&self) -> Option<TwigBinaryExpression> {
+        support::child(&self.syntax)
     }
 
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
+        let operator = self.operator()?;
         self.syntax
             .children()
-            .filter_map(TwigExpression::cast)
-            .nth(1)
+            .filter(|it| it.text_range().start() >= operator.text_range().end())
+            .find_map(TwigExpression::cast)
     }
 }
 
-- 
2.43.0


From e87a7e090aa72e1ee6168f353bda0851ec73bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 12/45] fix: keep the grouping of operands when rewriting ===
 and !==

---
 .../check/rules/twig_use_is_not_same_as.rs    | 15 +---
 .../src/check/rules/twig_use_is_same_as.rs    | 86 ++++++++++++++++---
 2 files changed, 78 insertions(+), 23 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index eb4a599..92877e2 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,5 @@
-use crate::check::rule::{CheckResult, RuleExt, RuleRunContext, word_operator_replacement};
+use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rules::twig_use_is_same_as::same_as_suggestion;
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -26,16 +27,8 @@ impl Rule for RuleTwigUseIsNotSameAs {
                 "This is not a valid Twig operator, try 'is not same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!(
-                    "{}({})",
-                    word_operator_replacement(&op, "is not same as").trim_end(),
-                    rhs.syntax().text().to_string().trim()
-                ),
-                "Try this instead",
-            );
+        if let Some((range, replacement)) = same_as_suggestion(&binary, &op, "is not same as") {
+            result = result.suggestion(range, replacement, "Try this instead");
         }
 
         Some(vec![result])
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index a90bfdd..5b16329 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -1,6 +1,8 @@
 use ludtwig_parser::T;
-use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression, TwigExpression, support};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange,
+};
 
 use crate::check::rule::{
     CheckResult, Rule, RuleExt, RuleRunContext, Severity, word_operator_replacement,
@@ -28,22 +30,82 @@ impl Rule for RuleTwigUseIsSameAs {
                 "This is not a valid Twig operator, try 'is same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!(
-                    "{}({})",
-                    word_operator_replacement(&op, "is same as").trim_end(),
-                    rhs.syntax().text().to_string().trim()
-                ),
-                "Try this instead",
-            );
+        if let Some((range, replacement)) = same_as_suggestion(&binary, &op, "is same as") {
+            result = result.suggestion(range, replacement, "Try this instead");
         }
 
         Some(vec![result])
     }
 }
 
+/// The rewrite of a comparison to a test like `is same as(...)`.
+/// Tests bind tighter than the comparison, so the left operand may need parentheses to stay one operand.
+pub fn same_as_suggestion(
+    binary: &TwigBinaryExpression,
+    op: &SyntaxToken,
+    test: &str,
+) -> Option<(TextRange, String)> {
+    let rhs = binary.rhs_expression()?;
+    let range = op.text_range().cover(rhs.syntax().text_range());
+    let replacement = format!(
+        "{}({})",
+        word_operator_replacement(op, test).trim_end(),
+        rhs.syntax().text().to_string().trim()
+    );
+
+    let lhs = binary.syntax().first_child()?;
+    if !binds_looser_than_test(&lhs) {
+        return Some((range, replacement));
+    }
+
+    let lhs_start = lhs
+        .descendants_with_tokens()
+        .filter_map(SyntaxElement::into_token)
+        .find(|t| !t.kind().is_trivia())?
+        .text_range()
+        .start();
+    let lhs_range = TextRange::new(lhs_start, lhs.text_range().end());
+    let between_range = TextRange::new(lhs_range.end(), op.text_range().start());
+    let text_of = |range: TextRange| {
+        let offset = binary.syntax().text_range().start();
+        binary.syntax().text().slice(range - offset).to_string()
+    };
+
+    Some((
+        lhs_range.cover(range),
+        format!(
+            "({}){}{replacement}",
+            text_of(lhs_range),
+            text_of(between_range)
+        ),
+    ))
+}
+
+/// Is the operand (or the operator at its right end) weaker than `is`?
+fn binds_looser_than_test(operand: &SyntaxNode) -> bool {
+    if let Some(binary) = TwigBinaryExpression::cast(operand.clone()) {
+        let is_tight = binary
+            .operator()
+            .is_some_and(|op| matches!(op.kind(), T!["is"] | T!["is not"] | T!["**"] | T!["??"]));
+        return !is_tight
+            || binary
+                .rhs_expression()
+                .is_some_and(|rhs| binds_looser_than_test(rhs.syntax()));
+    }
+
+    match operand.kind() {
+        SyntaxKind::TWIG_UNARY_EXPRESSION => {
+            support::token(operand, T!["not"]).is_some()
+                || support::child::<TwigExpression>(operand)
+                    .is_some_and(|it| binds_looser_than_test(it.syntax()))
+        }
+        SyntaxKind::TWIG_EXPRESSION => operand
+            .first_child()
+            .is_some_and(|it| binds_looser_than_test(&it)),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::check::rules::test::{test_rule, test_rule_fix};
-- 
2.43.0


From b58680c265b8a2290d5af9f03ea62e50913e514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 13/45] fix: apply the suggestions of overlapping findings one
 after another

---
 crates/ludtwig/src/check.rs   | 47 +++++++++++++++++++++++++++--------
 crates/ludtwig/src/error.rs   | 12 +--------
 crates/ludtwig/src/process.rs | 34 ++-----------------------
 3 files changed, 39 insertions(+), 54 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..040b7f3 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeMap;
 use std::sync::Arc;
 
 use codespan_reporting::diagnostic::{Diagnostic, Label};
@@ -9,7 +10,9 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxToken, TextRange, TextSize, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -174,16 +177,38 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
-pub fn get_rule_context_suggestions(
-    check_results: &[CheckResult],
-) -> Vec<(&'static str, &CheckSuggestion)> {
-    check_results
-        .iter()
-        .flat_map(|res| {
-            let rule_name = res.rule_name;
-            res.suggestions.iter().map(move |sug| (rule_name, sug))
-        })
-        .collect()
+/// The suggestions that can be applied together, sorted by their range.
+/// The suggestions of a single check result are either all included or none of them
+/// (because they overlap with the suggestions of a previous check result).
+pub fn get_non_overlapping_suggestions(check_results: &[CheckResult]) -> Vec<&CheckSuggestion> {
+    // ordered by start and non overlapping, so only the direct neighbors need to be checked
+    let mut accepted: BTreeMap<(TextSize, TextSize), &CheckSuggestion> = BTreeMap::new();
+    let overlaps = |a: TextRange, b: TextRange| a == b || a.ordering(b).is_eq();
+
+    for result in check_results {
+        let mut added = vec![];
+        for suggestion in &result.suggestions {
+            let range = suggestion.syntax_range;
+            let key = (range.start(), range.end());
+            let prev = accepted.range(..=key).next_back();
+            let next = accepted.range(key..).next();
+            if prev
+                .into_iter()
+                .chain(next)
+                .any(|(_, other)| overlaps(other.syntax_range, range))
+            {
+                for key in &added {
+                    accepted.remove(key);
+                }
+                break;
+            }
+
+            accepted.insert(key, suggestion);
+            added.push(key);
+        }
+    }
+
+    accepted.into_values().collect()
 }
 
 pub fn produce_diagnostics(
diff --git a/crates/ludtwig/src/error.rs b/crates/ludtwig/src/error.rs
index d930384..13ee31c 100644
--- a/crates/ludtwig/src/error.rs
+++ b/crates/ludtwig/src/error.rs
@@ -13,9 +13,6 @@ pub enum FileProcessingError {
         io_error: std::io::Error,
     },
     MaxApplyIteration,
-    OverlappingSuggestionInSingleRule {
-        rule_name: String,
-    },
 }
 
 impl Display for FileProcessingError {
@@ -41,12 +38,6 @@ impl Display for FileProcessingError {
                     "max suggestion apply iteration encountered. This may be caused by fighting rules (programmer error) or too many conflicting suggestions at once"
                 )
             }
-            FileProcessingError::OverlappingSuggestionInSingleRule { rule_name } => {
-                write!(
-                    f,
-                    "Suggestion collision inside the same rule, check rule {rule_name} or write bug report - this is a programmer error"
-                )
-            }
         }
     }
 }
@@ -56,8 +47,7 @@ impl Error for FileProcessingError {
         match self {
             FileProcessingError::FileRead { io_error, .. }
             | FileProcessingError::FileWrite { io_error, .. } => Some(io_error),
-            FileProcessingError::MaxApplyIteration
-            | FileProcessingError::OverlappingSuggestionInSingleRule { .. } => None,
+            FileProcessingError::MaxApplyIteration => None,
         }
     }
 }
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..1c412d9 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,4 +1,3 @@
-use std::collections::HashSet;
 use std::fs;
 use std::path::PathBuf;
 
@@ -10,7 +9,7 @@ use ludtwig_parser::syntax::untyped::SyntaxNode;
 use crate::CliContext;
 use crate::check::rule::{CheckResult, CheckSuggestion, Rule};
 use crate::check::rules::get_file_active_rule_definitions;
-use crate::check::{get_rule_context_suggestions, produce_diagnostics, run_rules};
+use crate::check::{get_non_overlapping_suggestions, produce_diagnostics, run_rules};
 use crate::error::FileProcessingError;
 use crate::output::ProcessingEvent;
 
@@ -124,40 +123,11 @@ pub fn iteratively_apply_suggestions(
 
     // try at maximum 10 parsing iterations
     for iterations in 0_usize..10 {
-        let mut suggestions = get_rule_context_suggestions(&check_results);
+        let suggestions = get_non_overlapping_suggestions(&check_results);
         if suggestions.is_empty() {
             return Ok((file_context, check_results, dirty, iterations));
         }
 
-        // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
-
-        // filter out overlapping suggestions
-        let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
-                    return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
-                    });
-                }
-
-                overlapping_rules.insert(*rule_b);
-            }
-        }
-        let suggestions = suggestions
-            .into_iter()
-            .filter_map(|(rule, suggestion)| {
-                if overlapping_rules.contains(&rule) {
-                    return None;
-                }
-
-                Some(suggestion)
-            })
-            .collect();
-
         // transform source code according to non overlapping suggestions
         dirty = true;
         let source_code = apply_suggestions_to_text(suggestions, file_context.source_code);
-- 
2.43.0


From ef2de1bf475c633a73841b2c222153c9259b9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 14/45] fix: do not change the whitespace inside of strings and
 nested pre, textarea, script and style elements

---
 crates/ludtwig/src/check.rs                   | 41 ++++++++++---------
 crates/ludtwig/src/check/rules/indentation.rs | 23 +++++------
 .../rules/whitespace_between_line_breaks.rs   |  6 ++-
 3 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 040b7f3..800786d 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -11,7 +11,7 @@ use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
 use ludtwig_parser::syntax::untyped::{
-    SyntaxElement, SyntaxToken, TextRange, TextSize, WalkEvent, debug_tree,
+    SyntaxElement, SyntaxNode, TextRange, TextSize, WalkEvent, debug_tree,
 };
 
 use crate::ProcessingEvent;
@@ -94,16 +94,8 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
+                        if is_trivia_sensitive(&n) {
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -158,16 +150,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
+                    if is_trivia_sensitive(&n) {
+                        // special nodes can be nested inside of each other
+                        run_context.traversal_ctx.inside_trivia_sensitive_node =
+                            n.ancestors().skip(1).any(|n| is_trivia_sensitive(&n));
                     }
                 }
             }
@@ -177,6 +163,21 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Is the whitespace inside of this node part of the content?
+pub fn is_trivia_sensitive(node: &SyntaxNode) -> bool {
+    if HtmlStringInner::can_cast(node.kind()) || TwigLiteralStringInner::can_cast(node.kind()) {
+        return true;
+    }
+
+    HtmlTag::cast(node.clone())
+        .and_then(|t| t.name())
+        .is_some_and(|name| {
+            ["pre", "textarea", "script", "style"]
+                .iter()
+                .any(|sensitive| name.text().eq_ignore_ascii_case(sensitive))
+        })
+}
+
 /// The suggestions that can be applied together, sorted by their range.
 /// The suggestions of a single check result are either all included or none of them
 /// (because they overlap with the suggestions of a previous check result).
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..9473da6 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -1,9 +1,10 @@
-use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore};
+use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, LudtwigDirectiveIgnore};
 use ludtwig_parser::syntax::untyped::{
     PreorderWithTokens, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
     WalkEvent,
 };
 
+use crate::check::is_trivia_sensitive;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleIndentation;
@@ -247,17 +248,15 @@ impl RuleIndentation {
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
+        if is_trivia_sensitive(n) {
+            match walk_mode {
+                WalkMode::Enter => {
+                    *inside_trivia_sensitive_node = true;
+                }
+                WalkMode::Leave => {
+                    // special nodes can be nested inside of each other
+                    *inside_trivia_sensitive_node =
+                        n.ancestors().skip(1).any(|n| is_trivia_sensitive(&n));
                 }
             }
         }
diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..789c4b0 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -9,7 +9,11 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
         "whitespace-between-line-breaks"
     }
 
-    fn check_token(&self, token: SyntaxToken, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+    fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+        if ctx.traversal_ctx().inside_trivia_sensitive_node {
+            return None; // no trivia modification allowed here
+        }
+
         // rule only inspects line breaks
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
-- 
2.43.0


From 7d4cefb9050c44230cdcfdc9dcbdb314e1d0f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 15/45] fix: replace every line ending on its own

---
 crates/ludtwig/src/check/rules/line_ending.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..d3fb1fd 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -4,7 +4,6 @@ use std::sync::OnceLock;
 use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxToken, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use crate::config::LineEnding;
 
 pub struct RuleLineEnding;
 
@@ -14,7 +13,7 @@ impl Rule for RuleLineEnding {
     }
 
     fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        static INVALID_REGEX: OnceLock<Regex> = OnceLock::new();
+        static LINE_ENDING_REGEX: OnceLock<Regex> = OnceLock::new();
 
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
@@ -25,19 +24,13 @@ impl Rule for RuleLineEnding {
 
         // compile regex only once and store it in a static
         // because this function is called in a hot loop this does improve it's performance significantly
-        let invalid_regex = INVALID_REGEX.get_or_init(|| {
-            Regex::new(&format!(
-                r"({})",
-                match ctx.config().format.line_ending {
-                    LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
-                }
-            ))
-            .unwrap()
-        });
+        let line_ending_regex = LINE_ENDING_REGEX.get_or_init(|| Regex::new("\r?\n").unwrap());
 
         let mut results = vec![];
-        for invalid in invalid_regex.find_iter(token.text()) {
+        for invalid in line_ending_regex
+            .find_iter(token.text())
+            .filter(|it| it.as_str() != correct_line_ending)
+        {
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From ef042012f0afcc1d4a3d33711f2d5b4fa5e4ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 16/45] fix: keep ignoring a rule after the end of a nested
 ludtwig-ignore directive

---
 crates/ludtwig/src/check/rule.rs              | 18 +++++++++---------
 crates/ludtwig/src/check/rules/indentation.rs | 16 ++++++++--------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 869ba99..0c55692 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -107,15 +107,15 @@ impl<R: Rule> RuleExt for R {
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        let is_ignored_by_directive = |n: &SyntaxNode| {
+            n.prev_sibling()
+                .and_then(LudtwigDirectiveIgnore::cast)
+                .is_some_and(|directive| directive.get_rules().iter().any(|r| r == self.name()))
+        };
+
+        if is_ignored_by_directive(n) {
+            // this rule is no longer ignored (if no outer directive ignores it as well)
+            *is_ignored = n.ancestors().skip(1).any(|n| is_ignored_by_directive(&n));
         }
     }
 }
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 9473da6..da6cc3f 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -231,15 +231,15 @@ impl RuleIndentation {
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
+        let is_ignored_by_directive = |n: &SyntaxNode| {
+            n.prev_sibling()
+                .and_then(LudtwigDirectiveIgnore::cast)
+                .is_some_and(|directive| directive.get_rules().iter().any(|r| r == self.name()))
+        };
 
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if is_ignored_by_directive(n) {
+            // this rule is no longer ignored (if no outer directive ignores it as well)
+            *is_ignored = n.ancestors().skip(1).any(|n| is_ignored_by_directive(&n));
         }
     }
 
-- 
2.43.0


From e58a084b78675818964e03573041477e6492bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:53 +0000
Subject: [PATCH 17/45] fix: exit with an error if none of the given paths can
 be read

---
 crates/ludtwig/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..270da92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From 0c8b5675bffaeeaf877f97f3c9ff3c66fed597a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:48 +0000
Subject: [PATCH 18/45] fix: insert the quotes of unquoted values directly
 around the value

---
 .../src/check/rules/html_string_quotation.rs      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 44ced4e..da94deb 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -1,5 +1,7 @@
 use ludtwig_parser::syntax::typed::{AstNode, HtmlString};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxNodeExt, TextRange, TextSize,
+};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -62,8 +64,17 @@ pub fn make_changed_quotes_suggestion_if_possible(
             result = result.suggestion(quote.text_range(), correct_quote, "Try this quote instead");
         }
         _ => {
+            // the whitespace in front of an unquoted value is not part of the value
+            let value_start = inner
+                .syntax()
+                .descendants_with_tokens()
+                .filter_map(SyntaxElement::into_token)
+                .find(|t| !t.kind().is_trivia())
+                .map_or(inner.syntax().text_range().start(), |t| {
+                    t.text_range().start()
+                });
             result = result.suggestion(
-                TextRange::at(inner.syntax().text_range().start(), TextSize::from(0)),
+                TextRange::at(value_start, TextSize::from(0)),
                 correct_quote,
                 "Try this quote instead",
             );
-- 
2.43.0


From 8c1f4c422ecc985e59d44b54866874f46b0942a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 19/45] fix: do not quote only a part of an unquoted value

---
 .../ludtwig/src/check/rules/html_string_quotation.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index da94deb..f5d9791 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -53,6 +53,18 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result;
     };
 
+    // an unquoted value may be continued by the twig syntax directly behind it
+    let is_followed_by_more_value = twig_string.get_closing_quote().is_none()
+        && twig_string
+            .syntax()
+            .parent()
+            .and_then(|attribute| attribute.next_sibling())
+            .and_then(|next| next.first_token())
+            .is_some_and(|t| !t.kind().is_trivia());
+    if is_followed_by_more_value {
+        return result; // only a part of the value would be quoted
+    }
+
     let inner_text = inner.syntax().text();
     if inner_text.contains_char(correct_quote) {
         return result; // TODO: could still try to transform the string with more effort...
-- 
2.43.0


From 4125f71379a665bbb5b6aaf9d46561534ea29023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 20/45] fix: keep the quotes of hash keys which can't be parsed
 without them

---
 crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
index ad20a0d..0139464 100644
--- a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
+++ b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
@@ -1,6 +1,6 @@
-use ludtwig_parser::TWIG_NAME_REGEX;
 use ludtwig_parser::syntax::typed::{AstNode, TwigLiteralHashKey, TwigLiteralString, support};
 use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::{T, TWIG_NAME_REGEX};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -17,8 +17,10 @@ impl Rule for RuleTwigHashKeyNoQuotes {
         let key_string_inner = key_string_literal.get_inner()?;
 
         // validate that inner string is a single valid twig word
+        // (characters that are not known to the parser are only allowed inside of quotes)
         let key_only_contains_one_element =
-            key_string_inner.syntax().children_with_tokens().count() == 1;
+            key_string_inner.syntax().children_with_tokens().count() == 1
+                && support::token(key_string_inner.syntax(), T![unknown]).is_none();
         let key_string_matches_twig_word_regex =
             TWIG_NAME_REGEX.is_match(&key_string_inner.syntax().text().to_string());
 
-- 
2.43.0


From 7d5d54c335af4d2bad74a3c45c9c464dda876b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 21/45] fix: process every file only once if the given paths
 overlap

---
 crates/ludtwig/src/main.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..cde051d 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -14,9 +14,11 @@ use crate::output::ProcessingEvent;
 use clap::Parser;
 use ignore::types::TypesBuilder;
 use ignore::{WalkBuilder, WalkState};
+use std::collections::HashSet;
+use std::fs;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
-use std::sync::{Arc, mpsc};
+use std::sync::{Arc, Mutex, mpsc};
 use std::thread;
 
 mod check;
@@ -170,6 +172,10 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     }
     let walker = walker.build_parallel();
 
+    // the user specified paths can overlap, but every file should only be processed once
+    let visited_files = Mutex::new(HashSet::new());
+    let visited_files = &visited_files;
+
     // parallel directory traversal but move the work for each file to a different thread in the thread pool.
     rayon::scope(move |s| {
         walker.run(|| {
@@ -191,6 +197,15 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
                     return WalkState::Continue;
                 }
 
+                let identity = fs::canonicalize(entry.path()).unwrap_or(entry.path().into());
+                if !visited_files
+                    .lock()
+                    .expect("no other thread should panic while holding the lock")
+                    .insert(identity)
+                {
+                    return WalkState::Continue;
+                }
+
                 let clone = cli_context.clone();
                 let tx_clone = cli_context.output_tx.clone();
                 s.spawn(
-- 
2.43.0


From 1255dd49d45e5fbb198a8866f74b6a41d52801c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 22/45] fix: suggest no minus directly behind the prefix of an
 attribute name

---
 crates/ludtwig/src/check/naming_convention.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index 802b196..ded0b0c 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -151,8 +151,9 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
             continue;
         }
 
-        // make an minus before each uppercase and replace it with lowercase
-        if c.is_ascii_uppercase() {
+        // make an minus before each uppercase (but not directly behind a special prefix)
+        // and replace it with lowercase
+        if c.is_ascii_uppercase() && !attempt.ends_with([':', '@', '#']) {
             attempt.push('-');
         }
 
-- 
2.43.0


From 74887ebfd5cb2aee212d718e1bc5513c43222eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 23/45] fix: never suggest a block name which starts with a
 digit

---
 crates/ludtwig/src/check/naming_convention.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index ded0b0c..91fbc12 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -77,6 +77,13 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
         attempt.push(to_ascii_case(&c));
     }
 
+    // a name can't start with a digit
+    if attempt.starts_with(|c: char| c.is_ascii_digit())
+        && !original.starts_with(|c: char| c.is_ascii_digit())
+    {
+        return None;
+    }
+
     // validate suggestion
     if !attempt.is_empty() && is_valid_ascii_alpha_snake_case(&attempt, screaming) {
         return Some(attempt);
-- 
2.43.0


From e6ec93b0a4b6f3524d61229c6bd72481ccba18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:46 +0000
Subject: [PATCH 24/45] fix: leave the names of tests as they are written

---
 crates/ludtwig/src/check/rules/twig_valid_test.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_valid_test.rs b/crates/ludtwig/src/check/rules/twig_valid_test.rs
index f4cdfd0..6ab1098 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_test.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_test.rs
@@ -24,16 +24,11 @@ impl Rule for RuleTwigValidTest {
 
         let rhs = binary_expr.rhs_expression()?;
         let name_token = extract_test_name(&rhs)?;
-        // tests like 'same as' may be written with more whitespace between the words
-        let test_name = name_token
-            .text()
-            .split_whitespace()
-            .collect::<Vec<_>>()
-            .join(" ");
+        let test_name = name_token.text();
 
         let valid_tests = &ctx.config().twig.valid_tests;
 
-        if !valid_tests.iter().any(|t| *t == test_name) {
+        if !valid_tests.iter().any(|t| t == test_name) {
             let result = self
                 .create_result(
                     Severity::Warning,
-- 
2.43.0


From 9d4aeeab4a38e5e83b3e4ca0bff77b8dd8474a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 25/45] fix: end the right operand of 'is' and 'is not' at the
 following operator

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..0fe464e 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -115,7 +115,8 @@ impl Operator for SyntaxKind {
             T!["+"] | T!["-"] => Some((30, 31)),
             T!["~"] => Some((40, 41)),
             T!["*"] | T!["/"] | T!["//"] | T!["%"] => Some((60, 61)),
-            T!["is"] | T!["is not"] => Some((100, 101)),
+            // the right operand is only the name of a test (with arguments), which has no operators itself
+            T!["is"] | T!["is not"] => Some((100, 152)),
             // right associative
             T!["**"] => Some((121, 120)),
             T!["??"] => Some((151, 150)),
-- 
2.43.0


From b7b1f81b3bf9ea94766bc2c58c36f929c1a3d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 26/45] fix: check the first filter of apply

---
 .../src/check/rules/twig_valid_filter.rs      | 46 +++++++++++++------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_valid_filter.rs b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
index f5fc380..e0fbcf1 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_filter.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
@@ -1,7 +1,7 @@
 use ludtwig_parser::syntax::typed::{
-    AstNode, TwigFilter, TwigFunctionCall, TwigLiteralName, support,
+    AstNode, TwigApplyStartingBlock, TwigFilter, TwigFunctionCall, TwigLiteralName, support,
 };
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxToken};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -13,20 +13,23 @@ impl Rule for RuleTwigValidFilter {
     }
 
     fn check_node(&self, node: SyntaxNode, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let filter = TwigFilter::cast(node)?;
-        let right_operand = filter.filter()?;
-
-        // Filter name can be a plain TwigLiteralName or inside a TwigFunctionCall (when filter has args)
-        let name_token = if let Some(name_node) =
-            support::child::<TwigLiteralName>(right_operand.syntax())
-        {
-            name_node.get_name()?
-        } else if let Some(func_call) = support::child::<TwigFunctionCall>(right_operand.syntax()) {
-            let name_operand = func_call.name_operand()?;
-            let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
-            name_node.get_name()?
+        let name_token = if let Some(filter) = TwigFilter::cast(node.clone()) {
+            let right_operand = filter.filter()?;
+
+            // Filter name can be a plain TwigLiteralName or inside a TwigFunctionCall (when filter has args)
+            if let Some(name_node) = support::child::<TwigLiteralName>(right_operand.syntax()) {
+                name_node.get_name()?
+            } else if let Some(func_call) =
+                support::child::<TwigFunctionCall>(right_operand.syntax())
+            {
+                let name_operand = func_call.name_operand()?;
+                let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
+                name_node.get_name()?
+            } else {
+                return None;
+            }
         } else {
-            return None;
+            get_first_applied_filter(&TwigApplyStartingBlock::cast(node)?)?
         };
 
         let filter_name = name_token.text();
@@ -50,6 +53,19 @@ impl Rule for RuleTwigValidFilter {
     }
 }
 
+/// The name of the first filter in `{% apply first|second %}` (it isn't applied to any operand).
+fn get_first_applied_filter(starting_block: &TwigApplyStartingBlock) -> Option<SyntaxToken> {
+    let mut node = starting_block.syntax().first_child()?;
+    while matches!(
+        node.kind(),
+        SyntaxKind::TWIG_FILTER | SyntaxKind::TWIG_OPERAND
+    ) {
+        node = node.first_child()?;
+    }
+
+    TwigLiteralName::cast(node)?.get_name()
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 808e460c222a2bce512dfc16790810de94981fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 27/45] fix: report raw after json_encode in apply

---
 .../check/rules/twig_json_encode_escape_js.rs  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 0a4ec0f..8c81409 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -1,5 +1,5 @@
 use ludtwig_parser::syntax::typed::{AstNode, TwigFilter, TwigLiteralName, support};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -65,6 +65,13 @@ fn chain_contains_json_encode(filter: &TwigFilter) -> bool {
                 current = inner;
                 continue;
             }
+
+            // `{% apply first|second %}` applies its first filter without an operand
+            if is_applied(filter) {
+                return support::child::<TwigLiteralName>(left_operand.syntax())
+                    .and_then(|name_node| name_node.get_name())
+                    .is_some_and(|t| t.text() == "json_encode");
+            }
         }
 
         break;
@@ -73,6 +80,15 @@ fn chain_contains_json_encode(filter: &TwigFilter) -> bool {
     false
 }
 
+/// Is the filter (chain) part of an `{% apply ... %}`?
+fn is_applied(filter: &TwigFilter) -> bool {
+    filter
+        .syntax()
+        .ancestors()
+        .find(|n| !matches!(n.kind(), SyntaxKind::TWIG_FILTER | SyntaxKind::TWIG_OPERAND))
+        .is_some_and(|n| n.kind() == SyntaxKind::TWIG_APPLY_STARTING_BLOCK)
+}
+
 #[cfg(test)]
 mod tests {
     use crate::check::rules::test::{test_rule, test_rule_does_not_fix, test_rule_fix};
-- 
2.43.0


From 868b925fcde83e837d1c58c62f4d3c6c189ce204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:00 +0000
Subject: [PATCH 28/45] fix: do not read past the end of the file in raw text
 elements

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From 9075419da102fe243d4ad7557d4537ed015598cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 29/45] fix: report a missing arrow behind the parameters of an
 arrow function

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 0fe464e..91d99f3 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -316,7 +316,12 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
     let last_node = parser.complete(m, SyntaxKind::TWIG_ARGUMENTS);
 
-    parse_twig_arrow_function(parser, last_node)
+    if parser.at(T!["=>"]) {
+        parse_twig_arrow_function(parser, last_node)
+    } else {
+        parser.add_error(ParseErrorBuilder::new("=>"));
+        last_node
+    }
 }
 
 fn parse_unary_expression(parser: &mut Parser) -> CompletedMarker {
-- 
2.43.0


From 16fc7bc8871fecebd14c11229f1c082659f16e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 30/45] fix: keep null, true and false literals behind an
 opening parenthesis

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 91d99f3..d0dff42 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -268,6 +268,7 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
     if parser
         .peek_token()
         .is_some_and(|t| t.kind.unary_binding_power().is_none())
+        && !parser.at_set(&[T!["null"], T!["true"], T!["false"]])
     {
         // check for a simple name literal
         if let Some(mut lit_m) = parse_twig_name(parser) {
-- 
2.43.0


From 5ae6d84ce9eba4d5c9cd695b4b7ff8a525537b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 31/45] fix: accept keywords and numbers as unquoted attribute
 values

---
 crates/ludtwig-parser/src/grammar/html.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index bb629e0..8a35cdf 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -1,4 +1,5 @@
 use crate::T;
+use crate::grammar::twig::literal::at_twig_name;
 use crate::grammar::twig::{at_twig_termination_tag, parse_any_twig, parse_twig_var_statement};
 use crate::grammar::{ParseFunction, parse_any_element, parse_ludtwig_directive, parse_many};
 use crate::parser::event::{CompletedMarker, Marker};
@@ -357,8 +358,10 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
     }
 
     fn inner_no_quote_parser(parser: &mut Parser) -> Option<CompletedMarker> {
-        if parser.at(T![word]) {
+        if parser.at_set(&[T![word], T![number]]) {
             parser.bump();
+        } else if at_twig_name(parser) {
+            parser.bump_as(T![word]);
         } else if parser.at_twig_var_open() {
             // a single twig var expression with missing quotes should also count as an html attribute value
             parse_twig_var_statement(parser);
-- 
2.43.0


From 10dbd05cc0825624d4d876770a5b3d6afa51edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 32/45] fix: do not indent the closing quote of a string that
 ends with a line break

---
 crates/ludtwig/src/check/rules/indentation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index da6cc3f..d3dfad3 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -34,7 +34,9 @@ impl Rule for RuleIndentation {
                             tree_iter.skip_subtree(); // Skip everything under error nodes!
                         }
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
-                            line_break_encountered = true;
+                            // what follows a line break inside of such a node is content (e.g.
+                            // the closing quote of a string that ends with a line break)
+                            line_break_encountered = !inside_trivia_sensitive_node;
                         }
                         SyntaxElement::Token(t) if !is_ignored && line_break_encountered => {
                             if !inside_trivia_sensitive_node {
-- 
2.43.0


From 7305007ed7cab2c838bdcb9eaee44d19c8cadc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 33/45] fix: do not report missing indentation with an
 indentation-count of 0

---
 crates/ludtwig/src/check/rules/indentation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index d3dfad3..a94546d 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -176,7 +176,7 @@ impl RuleIndentation {
                 }
             }
             _ => {
-                if indentation_level > 0 || indentation_substeps > 0 {
+                if !expected_str.is_empty() {
                     // report missing whitespace token
                     let range = TextRange::at(token.text_range().start(), TextSize::from(0));
                     let result = self
-- 
2.43.0


From 70a7a1e078de44538b755102bf6cf116933becdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 34/45] fix: do not search the parent directories for the
 config file

---
 crates/ludtwig/src/config.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..8ecf4b2 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -141,13 +141,18 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let config: Config = Figment::new()
-            // first read the raw config from memory (for default values)
-            .merge(Toml::string(
-                &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
-            ))
-            // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
+        // first read the raw config from memory (for default values)
+        let mut figment = Figment::new().merge(Toml::string(
+            &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
+        ));
+
+        // then read the config in the file system (if it exists)
+        // only at the exact location, the parent directories are not searched
+        if path.as_ref().exists() {
+            figment = figment.merge(Toml::file_exact(path));
+        }
+
+        let config: Config = figment
             // last read from the environment
             .merge(
                 Env::prefixed("LUDTWIG_")
-- 
2.43.0


From a366c4692ba88898f417f2658d3fc8537531f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 35/45] fix: name the file for which --fix gave up

---
 crates/ludtwig/src/error.rs   | 11 +++++++----
 crates/ludtwig/src/process.rs |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig/src/error.rs b/crates/ludtwig/src/error.rs
index 13ee31c..53c650e 100644
--- a/crates/ludtwig/src/error.rs
+++ b/crates/ludtwig/src/error.rs
@@ -12,7 +12,9 @@ pub enum FileProcessingError {
         path: PathBuf,
         io_error: std::io::Error,
     },
-    MaxApplyIteration,
+    MaxApplyIteration {
+        path: PathBuf,
+    },
 }
 
 impl Display for FileProcessingError {
@@ -32,10 +34,11 @@ impl Display for FileProcessingError {
                     path.to_string_lossy()
                 )
             }
-            FileProcessingError::MaxApplyIteration => {
+            FileProcessingError::MaxApplyIteration { path } => {
                 write!(
                     f,
-                    "max suggestion apply iteration encountered. This may be caused by fighting rules (programmer error) or too many conflicting suggestions at once"
+                    "file {} can't be fixed: max suggestion apply iteration encountered. This may be caused by fighting rules (programmer error) or too many conflicting suggestions at once",
+                    path.to_string_lossy()
                 )
             }
         }
@@ -47,7 +50,7 @@ impl Error for FileProcessingError {
         match self {
             FileProcessingError::FileRead { io_error, .. }
             | FileProcessingError::FileWrite { io_error, .. } => Some(io_error),
-            FileProcessingError::MaxApplyIteration => None,
+            FileProcessingError::MaxApplyIteration { .. } => None,
         }
     }
 }
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 1c412d9..85b1ede 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -148,7 +148,9 @@ pub fn iteratively_apply_suggestions(
     }
 
     // suggestions still remain after max iterations
-    Err(FileProcessingError::MaxApplyIteration)
+    Err(FileProcessingError::MaxApplyIteration {
+        path: file_context.file_path,
+    })
 }
 
 fn apply_suggestions_to_text(
-- 
2.43.0


From 9a39f7c0ad2b7703da63d8e09c6bdf31185a1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 36/45] fix: evaluate ignore files correctly for more than one
 directory

A single walker for all given directories matches the ignore files of the
parent directories relative to the first directory, so files of the other
directories were wrongly skipped or processed.
---
 crates/ludtwig/src/main.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index cde051d..47cac65 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -133,7 +133,19 @@ fn app(opts: Opts, config: Config) -> i32 {
     let output_handler = thread::spawn(move || output::handle_processing_output(&rx));
 
     // work on each user specified file / directory path concurrently
-    handle_input_paths(opts.files, cli_context.clone());
+    // every directory is walked on its own, because a walker evaluates the ignore files
+    // of the parent directories relative to its first directory only
+    let (directories, files): (Vec<_>, Vec<_>) = opts.files.into_iter().partition(|p| p.is_dir());
+    let mut path_groups: Vec<_> = directories.into_iter().map(|d| vec![d]).collect();
+    if !files.is_empty() {
+        path_groups.push(files);
+    }
+
+    // the user specified paths can overlap, but every file should only be processed once
+    let visited_files = Mutex::new(HashSet::new());
+    for paths in path_groups {
+        handle_input_paths(paths, cli_context.clone(), &visited_files);
+    }
 
     drop(cli_context); // drop this tx channel
 
@@ -144,7 +156,11 @@ fn app(opts: Opts, config: Config) -> i32 {
 }
 
 /// Process a directory path.
-fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
+fn handle_input_paths(
+    paths: Vec<PathBuf>,
+    cli_context: CliContext,
+    visited_files: &Mutex<HashSet<PathBuf>>,
+) {
     let types = TypesBuilder::new()
         .add_defaults()
         .select("twig")
@@ -172,10 +188,6 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     }
     let walker = walker.build_parallel();
 
-    // the user specified paths can overlap, but every file should only be processed once
-    let visited_files = Mutex::new(HashSet::new());
-    let visited_files = &visited_files;
-
     // parallel directory traversal but move the work for each file to a different thread in the thread pool.
     rayon::scope(move |s| {
         walker.run(|| {
-- 
2.43.0


From 4bb5626aea8e86400326d817063cb1be8b590cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 37/45] fix: -C never writes through a dangling link and
 reports errors

The configuration was written through a dangling link and over a file that
was created after the check. An error while writing ended in a panic.
---
 crates/ludtwig/src/config.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 8ecf4b2..b845673 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -1,5 +1,6 @@
 use std::env;
 use std::fmt::{Display, Formatter};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 
 use figment::Figment;
@@ -182,7 +183,18 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
         }
 
         let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
-        std::fs::write(&config_path, config_raw).expect("can't write default config");
+        let result = std::fs::File::options()
+            .write(true)
+            .create_new(true) // never follow a dangling link or overwrite a file that was created meanwhile
+            .open(&config_path)
+            .and_then(|mut file| file.write_all(config_raw.as_bytes()));
+        if let Err(e) = result {
+            eprintln!(
+                "Error: can't write default config to {}: {e}",
+                config_path.display()
+            );
+            std::process::exit(1);
+        }
         println!(
             "Default config was written to {}",
             config_path.to_string_lossy()
-- 
2.43.0


From af6d675a846fd8075d6516d697dfc94190f7c48e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 38/45] fix: findings of extends and misplaced ignore-file
 directives start at the construct, not at the whitespace in front of it

---
 .../ludtwig/src/check/rules/ludtwig_ignore_file_not_on_top.rs | 4 ++--
 .../ludtwig/src/check/rules/twig_prefer_shopware_extends.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/ludtwig_ignore_file_not_on_top.rs b/crates/ludtwig/src/check/rules/ludtwig_ignore_file_not_on_top.rs
index eab5cc1..c677aaf 100644
--- a/crates/ludtwig/src/check/rules/ludtwig_ignore_file_not_on_top.rs
+++ b/crates/ludtwig/src/check/rules/ludtwig_ignore_file_not_on_top.rs
@@ -1,7 +1,7 @@
 use crate::Severity;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext};
 use ludtwig_parser::syntax::typed::{AstNode, LudtwigDirectiveFileIgnore};
-use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxNodeExt};
 
 pub struct RuleLudtwigIgnoreFileNotOnTop;
 
@@ -16,7 +16,7 @@ impl Rule for RuleLudtwigIgnoreFileNotOnTop {
 
         if parent.kind() != SyntaxKind::ROOT {
             let result = self.create_result( Severity::Error, "ludtwig-ignore-file directive must be on the top level in a file otherwise it is discarded!")
-                .primary_note(directive.syntax().text_range(), "move this to the top level of the file (ideally the first line)");
+                .primary_note(directive.syntax().text_range_trimmed_trivia(), "move this to the top level of the file (ideally the first line)");
 
             return Some(vec![result]);
         }
diff --git a/crates/ludtwig/src/check/rules/twig_prefer_shopware_extends.rs b/crates/ludtwig/src/check/rules/twig_prefer_shopware_extends.rs
index 50de255..70e4419 100644
--- a/crates/ludtwig/src/check/rules/twig_prefer_shopware_extends.rs
+++ b/crates/ludtwig/src/check/rules/twig_prefer_shopware_extends.rs
@@ -1,5 +1,5 @@
 use ludtwig_parser::syntax::typed::{AstNode, TwigExtends};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -21,7 +21,7 @@ impl Rule for RuleTwigPreferShopwareExtends {
                 "prefer 'sw_extends' over 'extends' in shopware",
             )
             .primary_note(
-                twig_extends.syntax().text_range(),
+                twig_extends.syntax().text_range_trimmed_trivia(),
                 "change this 'extends' to 'sw_extends'",
             )
             .suggestion(
-- 
2.43.0


From 1c6c3b613b7e4f82ba62f6a5d81148c9960cee6f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 39/45] fix: an environment variable that is not valid unicode
 doesn't end ludtwig with a panic

---
 crates/ludtwig/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index b845673..6f7fa6b 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -217,7 +217,9 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
                 );
             }
 
-            for (k, v) in env::vars() {
+            // the environment can contain anything, also variables that are not valid unicode
+            for (k, v) in env::vars_os() {
+                let (k, v) = (k.to_string_lossy(), v.to_string_lossy());
                 if k.starts_with("LUDTWIG_") {
                     println!("Found environment variable for overriding config: {k}={v}");
                 }
-- 
2.43.0


From c5f4ea90180c2c8916dba5b280d3ff2e45641667 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 40/45] fix: a file argument of a single dash isn't skipped
 silently

---
 crates/ludtwig/src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 47cac65..7e00acf 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -135,7 +135,18 @@ fn app(opts: Opts, config: Config) -> i32 {
     // work on each user specified file / directory path concurrently
     // every directory is walked on its own, because a walker evaluates the ignore files
     // of the parent directories relative to its first directory only
-    let (directories, files): (Vec<_>, Vec<_>) = opts.files.into_iter().partition(|p| p.is_dir());
+    let (directories, files): (Vec<_>, Vec<_>) = opts
+        .files
+        .into_iter()
+        // the walker would take a single dash for the standard input and skip it
+        .map(|p| {
+            if p == Path::new("-") {
+                PathBuf::from("./-")
+            } else {
+                p
+            }
+        })
+        .partition(|p| p.is_dir());
     let mut path_groups: Vec<_> = directories.into_iter().map(|d| vec![d]).collect();
     if !files.is_empty() {
         path_groups.push(files);
-- 
2.43.0


From 929c902df95640612bae693d6da4bd47ca13fa7b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 41/45] fix: a standard stream that can't be written doesn't
 end ludtwig with a panic

---
 crates/ludtwig/src/config.rs  | 26 ++++++++++++++------------
 crates/ludtwig/src/main.rs    | 14 +++++++-------
 crates/ludtwig/src/output.rs  | 25 ++++++++++++++++++++++---
 crates/ludtwig/src/process.rs |  4 ++--
 4 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 6f7fa6b..9994dbe 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -8,6 +8,7 @@ use figment::providers::{Env, Format as FigFormat, Toml};
 use serde::Deserialize;
 
 use crate::Opts;
+use crate::output::{error_line, output_line};
 
 #[derive(Debug, Deserialize, PartialEq, Eq, Clone)]
 #[serde(rename_all = "kebab-case")]
@@ -174,7 +175,7 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
 
     if opts.create_config {
         if Path::exists(config_path.as_ref()) {
-            eprintln!(
+            error_line!(
                 "The configuration file already exists at the location {}. \
             Try choosing a different location with '-c my-path' or make a backup of your current config file (rename it).",
                 config_path.display()
@@ -189,13 +190,13 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
             .open(&config_path)
             .and_then(|mut file| file.write_all(config_raw.as_bytes()));
         if let Err(e) = result {
-            eprintln!(
+            error_line!(
                 "Error: can't write default config to {}: {e}",
                 config_path.display()
             );
             std::process::exit(1);
         }
-        println!(
+        output_line!(
             "Default config was written to {}",
             config_path.to_string_lossy()
         );
@@ -206,12 +207,12 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
     match Config::new(config_path.clone()) {
         Ok(c) => {
             if config_path.exists() {
-                println!(
+                output_line!(
                     "Loaded configuration file at {}",
                     config_path.to_string_lossy()
                 );
             } else {
-                println!(
+                output_line!(
                     "Using default config, because no config file found at {}",
                     config_path.to_string_lossy()
                 );
@@ -221,32 +222,33 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
             for (k, v) in env::vars_os() {
                 let (k, v) = (k.to_string_lossy(), v.to_string_lossy());
                 if k.starts_with("LUDTWIG_") {
-                    println!("Found environment variable for overriding config: {k}={v}");
+                    output_line!("Found environment variable for overriding config: {k}={v}");
                 }
             }
 
             let raw_user_config = std::fs::read_to_string(config_path).unwrap_or_default();
             if c.version != LUDTWIG_VERSION {
-                eprintln!(
+                error_line!(
                     "Warning: The version of the config file ({}) does not match the version of ludtwig ({}). You should update your config file and set it to the same version when you are done. To update you should carefully read the changelog or generate a new config with 'ludtwig -C' to not miss out on new features.",
-                    c.version, LUDTWIG_VERSION
+                    c.version,
+                    LUDTWIG_VERSION
                 );
             } else if !raw_user_config.is_empty() && !raw_user_config.contains("version") {
                 // ToDo #119: this edge case should be removed in future versions, the version field was introduced in 0.9.0
-                eprintln!(
+                error_line!(
                     "Warning: The version of the config file (UNKNOWN) does not match the version of ludtwig ({LUDTWIG_VERSION}). You should update your config file and set it to the same version when you are done. To update you should carefully read the changelog or generate a new config with 'ludtwig -C' to not miss out on new features.",
                 );
             }
 
             if opts.verbose {
-                println!("Used config values: \n{c:#?}");
+                output_line!("Used config values: \n{c:#?}");
             }
 
             c
         }
         Err(e) => {
-            eprintln!("Error reading config:");
-            eprintln!("{e}");
+            error_line!("Error reading config:");
+            error_line!("{e}");
             std::process::exit(1)
         }
     }
diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 7e00acf..78f5be7 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -10,7 +10,7 @@ static GLOBAL: mimalloc::MiMalloc = mimalloc::MiMalloc;
 use crate::check::rule::{Rule, Severity};
 use crate::check::rules::get_config_active_rule_definitions;
 use crate::config::Config;
-use crate::output::ProcessingEvent;
+use crate::output::{ProcessingEvent, error_line, output_line};
 use clap::Parser;
 use ignore::types::TypesBuilder;
 use ignore::{WalkBuilder, WalkState};
@@ -97,7 +97,7 @@ impl CliContext {
 /// Parse the CLI arguments and bootstrap the application.
 fn main() {
     let opts: Opts = Opts::parse();
-    println!(concat!("Ludtwig ", env!("CARGO_PKG_VERSION")));
+    output_line!(concat!("Ludtwig ", env!("CARGO_PKG_VERSION")));
     let config = config::handle_config_or_exit(&opts);
 
     let process_code = app(opts, config);
@@ -106,7 +106,7 @@ fn main() {
 
 /// The entry point of the application.
 fn app(opts: Opts, config: Config) -> i32 {
-    println!("Scanning files...");
+    output_line!("Scanning files...");
 
     // sender and receiver channels for the communication between tasks and the user.
     let (tx, rx) = mpsc::channel();
@@ -115,7 +115,7 @@ fn app(opts: Opts, config: Config) -> i32 {
     let active_rules = match get_config_active_rule_definitions(&config) {
         Ok(rules) => rules,
         Err(e) => {
-            eprintln!("Error: {e}");
+            error_line!("Error: {e}");
             return 1;
         }
     };
@@ -193,7 +193,7 @@ fn handle_input_paths(
     let cwd_ignore_path = Path::new("./.ludtwig-ignore");
     if cwd_ignore_path.exists() {
         if let Some(e) = walker.add_ignore(cwd_ignore_path) {
-            eprintln!("Error: can't use ./.ludtwig-ignore: {e}");
+            error_line!("Error: can't use ./.ludtwig-ignore: {e}");
             std::process::exit(1);
         }
     }
@@ -208,7 +208,7 @@ fn handle_input_paths(
                 let entry = match entry {
                     Ok(e) => e,
                     Err(e) => {
-                        eprintln!("Error: walking over the file path: {e}");
+                        error_line!("Error: walking over the file path: {e}");
                         cli_context
                             .send_processing_output(ProcessingEvent::Report(Severity::Error));
                         return WalkState::Continue;
@@ -238,7 +238,7 @@ fn handle_input_paths(
                             tx_clone
                                 .send(ProcessingEvent::Report(Severity::Error))
                                 .expect("output should still receive ProcessingEvents");
-                            eprintln!("Error: {e}");
+                            error_line!("Error: {e}");
                         }
                     },
                 );
diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index 270da92..dcd37a4 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -5,6 +5,25 @@ use std::sync::mpsc::Receiver;
 
 use crate::check::rule::Severity;
 
+/// Like `println!`, but a stdout that can't be written (closed pipe, full disk) is ignored
+/// instead of a panic, which would stop the processing of all the files.
+macro_rules! output_line {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
+/// Like `eprintln!`, but a stderr that can't be written is ignored instead of a panic.
+macro_rules! error_line {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
+pub(crate) use {error_line, output_line};
+
 pub enum ProcessingEvent {
     FileProcessed,
     Report(Severity),
@@ -43,7 +62,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
                 }
             },
             ProcessingEvent::OutputStderrMessage(buffer) => {
-                stderr_writer.print(&buffer).unwrap();
+                let _ = stderr_writer.print(&buffer);
             }
         }
     }
@@ -61,10 +80,10 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
     );
 
     if error_count > 0 || warning_count > 0 || help_count > 0 {
-        io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
+        let _ = io::stderr().write_all(conclusion_msg.as_bytes());
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-        print!("{conclusion_msg}");
+        let _ = io::stdout().write_all(conclusion_msg.as_bytes());
         0
     }
 }
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 85b1ede..bb7adc3 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -11,7 +11,7 @@ use crate::check::rule::{CheckResult, CheckSuggestion, Rule};
 use crate::check::rules::get_file_active_rule_definitions;
 use crate::check::{get_non_overlapping_suggestions, produce_diagnostics, run_rules};
 use crate::error::FileProcessingError;
-use crate::output::ProcessingEvent;
+use crate::output::{ProcessingEvent, output_line};
 
 /// The context for a single file.
 #[derive(Debug)]
@@ -92,7 +92,7 @@ fn run_analysis(
                     });
                 }
             }
-            println!(
+            output_line!(
                 "fixed {} in {} iterations",
                 &file_context.file_path.display(),
                 iterations
-- 
2.43.0


From bb10eeffb660edc082c9dac52fab17b661654541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 42/45] fix: the location of an unquoted value starts at the
 value, not at the whitespace in front of it

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 26 +++++++++------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 62208d5..c540529 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -992,20 +992,16 @@ pub trait SyntaxNodeExt {
 impl SyntaxNodeExt for SyntaxNode {
     /// Trims leading trivia from the original `text_range`
     fn text_range_trimmed_trivia(&self) -> TextRange {
-        let mut range = self.text_range();
-
-        for element in self.children_with_tokens() {
-            match element {
-                SyntaxElement::Token(t) if t.kind().is_trivia() => {
-                    let new_start = range.start() + t.text_range().len();
-                    if new_start < range.end() {
-                        range = TextRange::new(new_start, range.end());
-                    }
-                }
-                _ => return range,
-            }
-        }
-
-        range
+        let range = self.text_range();
+
+        // the leading trivia can be part of a nested node
+        let first_token = self
+            .descendants_with_tokens()
+            .filter_map(SyntaxElement::into_token)
+            .find(|t| !t.kind().is_trivia());
+
+        first_token.map_or(range, |t| {
+            TextRange::new(t.text_range().start(), range.end())
+        })
     }
 }
-- 
2.43.0


From 2c19ca5d9d472b96ff789fdf28892b3b68626803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 43/45] fix: the argument of a test without parentheses ends at
 the next operator

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 6 ++++++
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index d0dff42..ec24487 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -74,6 +74,12 @@ pub(super) fn parse_twig_expression(parser: &mut Parser) -> Option<CompletedMark
     parse_twig_expression_binding_power(parser, 0)
 }
 
+/// Parses a single operand with its postfix operators (and signs), e.g. the argument of a test
+/// without parentheses. The binary operators behind it belong to the expression around it.
+pub(super) fn parse_twig_single_operand(parser: &mut Parser) -> Option<CompletedMarker> {
+    parse_twig_expression_binding_power(parser, u8::MAX)
+}
+
 trait Operator {
     /// left and right binding power used for the Pratt parsing algorithm
     /// None means it is not a suitable binary operator (has two operands)
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 924873f..b935953 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -1,6 +1,8 @@
 use crate::T;
 use crate::grammar::parse_many;
-use crate::grammar::twig::expression::{TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression};
+use crate::grammar::twig::expression::{
+    TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression, parse_twig_single_operand,
+};
 use crate::parser::event::CompletedMarker;
 use crate::parser::{ParseErrorBuilder, Parser};
 use crate::syntax::untyped::SyntaxKind;
@@ -427,9 +429,9 @@ fn parse_twig_test_implicit_argument(
     let operand = parser.complete(m, SyntaxKind::TWIG_OPERAND);
     let outer = parser.precede(operand);
 
-    // parse the single argument expression without parentheses
+    // parse the single argument without parentheses
     let arguments_m = parser.start();
-    if parse_twig_expression(parser).is_none() {
+    if parse_twig_single_operand(parser).is_none() {
         parser.add_error(ParseErrorBuilder::new("argument for twig test"));
         parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
     }
-- 
2.43.0


From 2c53525e264ee7cbc7eefc498bbef62116992fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 44/45] fix: an unquoted value that is continued by an error is
 not quoted in parts

---
 .../src/check/rules/html_string_quotation.rs       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index f5d9791..1320b42 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -1,6 +1,6 @@
 use ludtwig_parser::syntax::typed::{AstNode, HtmlString};
 use ludtwig_parser::syntax::untyped::{
-    SyntaxElement, SyntaxNode, SyntaxNodeExt, TextRange, TextSize,
+    SyntaxElement, SyntaxKind, SyntaxNode, SyntaxNodeExt, TextRange, TextSize,
 };
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
@@ -55,12 +55,20 @@ pub fn make_changed_quotes_suggestion_if_possible(
 
     // an unquoted value may be continued by the twig syntax directly behind it
     let is_followed_by_more_value = twig_string.get_closing_quote().is_none()
-        && twig_string
+        && (twig_string
             .syntax()
             .parent()
             .and_then(|attribute| attribute.next_sibling())
             .and_then(|next| next.first_token())
-            .is_some_and(|t| !t.kind().is_trivia());
+            .is_some_and(|t| !t.kind().is_trivia())
+            || twig_string
+                .syntax()
+                .last_token()
+                .and_then(|t| t.next_token())
+                .is_some_and(|t| {
+                    !t.kind().is_trivia()
+                        && t.parent().is_some_and(|p| p.kind() == SyntaxKind::ERROR)
+                }));
     if is_followed_by_more_value {
         return result; // only a part of the value would be quoted
     }
-- 
2.43.0


From d15380fefb1daba17da535e335d42e11643be9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:12 +0000
Subject: [PATCH 45/45] fix: a dangling end tag in a silent feature call
 doesn't swallow the tag behind it

---
 crates/ludtwig-parser/src/grammar/twig/shopware.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/shopware.rs b/crates/ludtwig-parser/src/grammar/twig/shopware.rs
index 8fd9962..844cd09 100644
--- a/crates/ludtwig-parser/src/grammar/twig/shopware.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/shopware.rs
@@ -153,13 +153,14 @@ fn parse_twig_sw_silent_feature_call(
             T!["%}"],
             T!["-%}"],
             T!["~%}"],
+            T!["</"],
         ],
     );
     parser.expect(
         T!["endsw_silent_feature_call"],
-        &[T!["%}"], T!["-%}"], T!["~%}"]],
+        &[T!["%}"], T!["-%}"], T!["~%}"], T!["</"]],
     );
-    parser.expect_any(TWIG_BLOCK_CLOSE_SET, &[]);
+    parser.expect_any(TWIG_BLOCK_CLOSE_SET, &[T!["</"]]);
     parser.complete(
         end_block_m,
         SyntaxKind::SHOPWARE_SILENT_FEATURE_CALL_ENDING_BLOCK,
-- 
2.43.0

