From 169ef540a05ecf493f79869f56725e2802367980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/44] fix: lexer no longer hangs on a backslash at end of
 file

consume_char() advanced past the end of the source when there was no
character left, and then looked for a character boundary forever.
---
 crates/seam/src/parse/lexer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..8d9c4c9 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -139,15 +139,12 @@ impl<'a> Lexer {
     /// Advance the offset to the next unicode character.
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
-        let c = self.peek_char();
-        self.increment_byte_offsets(1);
-        while !self.source.is_char_boundary(self.byte_offset.get()) {
-            self.increment_byte_offsets(1);
-        }
-        if c == Some('\n') {
+        let c = self.peek_char()?;
+        self.increment_byte_offsets(c.len_utf8());
+        if c == '\n' {
             self.next_line();
         }
-        return c;
+        Some(c)
     }
 
     fn consume_lparen(&'a self, whitespace: &'a str) -> Token<'a> {
-- 
2.43.0


From 81ad80af1b0de4ab118ffe92d128c6b6d9b6bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 02/44] fix: count newlines inside strings and escapes once

consume_char() already advances the line counter, so every newline inside
a string (or an escaped one in a symbol) was counted twice, and each later
location in the file was reported on the wrong line.
---
 crates/seam/src/parse/lexer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8d9c4c9..0267e2d 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -182,11 +182,8 @@ impl<'a> Lexer {
             let Some(kind) = character_kind(c) else { break };
             // Symbols can contain escaped characters.
             if c == '\\' {
-                let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // `\`.
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -230,7 +227,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -261,7 +257,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
-- 
2.43.0


From 4293e09d7a39638d5fa709175d27474e098c668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 03/44] fix: keep an escaped backslash in symbols

`\\\\` in a symbol denotes a literal backslash, yet both were dropped.
---
 crates/seam/src/parse/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..9d85eea 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,8 +522,9 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
-        builder.push(c)
+        // The character following a backslash is always taken literally.
+        let c = if c == '\\' { chars.next() } else { Some(c) };
+        builder.extend(c);
     }
     builder
 }
-- 
2.43.0


From 4d2ea8a1c063acfc3e4b63b20b554ace81391f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 04/44] fix: report the first line of symbols that span several
 lines

Like strings, a symbol, number or keyword with an escaped newline starts on
the line of its first character; its site paired the line of its last
character with the column of its first.
---
 crates/seam/src/parse/lexer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 0267e2d..fa31b5c 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -167,9 +167,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -201,9 +203,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -283,8 +287,10 @@ impl<'a> Lexer {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
         let start_from_line = self.byte_offset_line.get();
+        let line_no = self.line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From 2aeeff8898d8a1a4a09c681104d0dc7a19770991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 05/44] fix: report attributes whose value expands to nothing

Such as `:a (%define x 1)`, which indexed out of bounds and panicked.
---
 crates/seam/src/parse/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..5a79d17 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1837,6 +1837,12 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
+                if expanded_nodes.is_empty() {
+                    return Err(ExpansionError(
+                        format!("Value of attribute `:{}` expanded to nothing.", keyword),
+                        site,
+                    ));
+                }
                 let new_node = Box::new(expanded_nodes[0].clone());
                 expanded_nodes[0] = ParseNode::Attribute {
                     keyword: keyword.clone(),
-- 
2.43.0


From efcc492ff2a70769a6dae92607a2986a5af5890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 06/44] fix: keep invocation nodes at a stable address

A reference to the invocation being expanded dangled as soon as a nested
invocation made the vector of invocations reallocate.
---
 crates/seam/src/parse/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 5a79d17..348e9ea 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,8 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
+    /// Boxed, so that references to them survive the vector growing.
+    invocations: RefCell<Vec<Box<ParseNode<'a>>>>,
     definitions: Scope<'a>,
 }
 
@@ -163,7 +164,7 @@ impl<'a> Expander<'a> {
     fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
         let invocations = self.invocations.as_ptr();
         unsafe {
-            (*invocations).push(node);
+            (*invocations).push(Box::new(node));
             (*invocations).last().unwrap()
         }
     }
-- 
2.43.0


From 5ae206f5087cce88ccda98446ad3db1ff4317e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 07/44] fix: included files outlive the scope that included
 them

The parser of a file included within a macro body (or `%for`, `%match`,
`%namespace`) was dropped with the scope, while nodes expanded from the
file still refer to its source-code.
---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 348e9ea..e36a9c8 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Shared with all subcontexts, since the nodes they produce refer to
+    /// the source-code of included files, and outlive the subcontext.
+    subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     /// Boxed, so that references to them survive the vector growing.
     invocations: RefCell<Vec<Box<ParseNode<'a>>>>,
@@ -101,7 +103,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -128,7 +130,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Box::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -136,7 +138,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &**parser) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 1c43a922383bdc04311668df9e8bee316a9d9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 08/44] fix: &&rest captures named arguments in the order given

They were collected from a hash map, so the attributes of an element came
out in a different order every run. Also makes which excess keyword is
reported deterministic.
---
 crates/seam/src/parse/expander.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index e36a9c8..fc8dd21 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -10,6 +10,7 @@ use std::{
     rc::Rc,
     collections::{
         HashMap,
+        BTreeMap,
         BTreeSet,
     },
 };
@@ -259,8 +260,8 @@ impl<'a> Expander<'a> {
         let mut rest_kw_node = None;
         let mut rhs_index: usize = 0;
         let mut expected: usize = 0;
-        let mut rhs_named = HashMap::new(); // Contains keyword -> attribute node.
-        let mut lhs_named = HashMap::new(); // Contains keyword -> attr. value node (defaults).
+        let mut rhs_named = BTreeMap::new(); // Contains keyword -> attribute node.
+        let mut lhs_named = BTreeMap::new(); // Contains keyword -> attr. value node (defaults).
         // We loop this way (not a for loop) so we can control
         // when exactly we advance to the next LHS node, potentially
         // doing multiple iterations on the same node.
@@ -388,12 +389,15 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1 {
+                let Some((keyword, _)) = node1.attribute() else { continue };
+                // If given more than once, the last one counts.
+                if rhs_named.get(keyword).is_some_and(|node| std::ptr::eq(*node, node1)) {
+                    rhs_named.remove(keyword);
+                    nodes.push(node1.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From 30f67187a55928c2e944abf48f3f081fb9f9d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 09/44] fix: %sort orders mixed keys by a total order

Mixing numeric and string keys (10 < 5x < 9 < 10) is not an ordering, and
made sort_by panic on longer lists.
---
 crates/seam/src/parse/expander.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index fc8dd21..3eff8c2 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1468,19 +1468,25 @@ impl<'a> Expander<'a> {
         }
         // Whitespace is reversed so .pop() removes the first item.
         whitespace.reverse();
+        // Numeric value of a key, if any: its float value, then its integer value.
+        let numeric = |key: &str| -> Option<(f64, i64)> {
+            if let Ok(int) = key.parse::<i64>() {
+                return Some((int as f64, int));
+            }
+            let float = key.parse::<f64>().ok().filter(|float| !float.is_nan())?;
+            Some((float, float as i64))
+        };
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
-            }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
+            // Numbers are compared numerically and precede all other keys, which
+            // are compared as strings. (This has to be a total order.)
+            match (numeric(&item0.key), numeric(&item1.key)) {
+                (Some(n0), Some(n1)) => n0.partial_cmp(&n1).unwrap(),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From cc068267d24bfa29908d0de3af9507e92a8a96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 10/44] fix: %date and %timestamp report bad formats and
 offsets

An invalid format specifier and an offset too large to convert to seconds
both panicked.
---
 crates/seam/src/parse/expander.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3eff8c2..8a234b6 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -2,7 +2,7 @@ use super::parser::{Node, ParseNode, ParseTree, Parser};
 use super::tokens::Site;
 
 use std::{
-    fmt,
+    fmt::{self, Write as _},
     cell::RefCell,
     path::PathBuf,
     ffi::OsString,
@@ -891,7 +891,13 @@ impl<'a> Expander<'a> {
         }?;
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(secs) => secs.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
@@ -922,7 +928,13 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if write!(formatted, "{}", time.format(&date_format)).is_err() {
+            return Err(ExpansionError::new(
+                "Invalid date format.",
+                &args.number.1.site,
+            ));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
@@ -944,7 +956,13 @@ impl<'a> Expander<'a> {
 
         let timezone_offset: i32 = match args.timezone {
             Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
+                Ok(hours) => match hours.checked_mul_int(60 * 60).and_then(|secs| secs.checked_round()) {
+                    Some(secs) => secs.to_num(),
+                    None => return Err(ExpansionError::new(
+                        "Timezone offset is out of range.",
+                        &offset.site,
+                    )),
+                },
                 Err(_) => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
-- 
2.43.0


From 04cd74d668937b60e6afab0d65d3e0309a9a886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 11/44] fix: %glob reports paths it cannot stat

E.g. a dangling symbolic link, which panicked.
---
 crates/seam/src/parse/expander.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 8a234b6..17616cb 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1301,7 +1301,13 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            let meta = match std::fs::metadata(&path) {
+                Ok(meta) => meta,
+                Err(err) => return Err(ExpansionError(
+                    format!("glob failed: {}: {}", path.display(), err),
+                    args.number.1.site.to_owned(),
+                )),
+            };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From f6f25b00aaca2b5bc2be83249d4ac6927c7216fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 12/44] fix: report YAML aliases and complex mapping keys

Complex keys panicked; aliases were skipped, so that the items following
them were assigned to the wrong keys, or panicked.
---
 crates/seam/src/parse/expander.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 17616cb..d56aad1 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1959,6 +1959,8 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         /// Whether we're parsing a map or a sequence (array).
         mode: Option<Mode>,
         modes: Vec<Mode>,
+        /// Set when encountering something that has no representation here.
+        unsupported: Option<&'static str>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
     }
@@ -1980,6 +1982,15 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
             );
+            // Mapping keys name definitions, so they have to be scalars.
+            let expects_key = self.mode == Some(Mode::Map) && self.defining.is_none();
+            match event {
+                yaml::Event::Alias(..) => self.unsupported = Some("aliases"),
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..) if expects_key =>
+                    self.unsupported = Some("complex mapping keys"),
+                _ => {},
+            }
+            if self.unsupported.is_some() { return; }
             match event {
                 // Either defining a new variable or setting a variable to a string.
                 yaml::Event::Scalar(ref value, ..) => {
@@ -2129,6 +2140,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec::new(),
         nodes: Vec::new(),
         parent: Vec::new(),
+        unsupported: None,
         site: site.clone(),
     };
 
@@ -2139,6 +2151,13 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             site.to_owned()
         ))?;
 
+    if let Some(feature) = sink.unsupported {
+        return Err(ExpansionError(
+            format!("Unsupported YAML: {}.", feature),
+            site.to_owned()
+        ));
+    }
+
     Ok(sink.nodes.into_boxed_slice())
 }
 
-- 
2.43.0


From 685b7f30984797a596fd8e609141d3805d10e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 13/44] fix: report tags with an empty name

Such as `((%symbol "") a)`, which panicked.
---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..9cb7068 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "HTML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..e8fa304 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -44,6 +44,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "XML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From 0f6c22432723f9621c980865f6bb6f60867b1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 14/44] fix: report <pre> contents that have no source text

A <pre> starting with the result of a macro expansion panicked, when the
node came from another file or from after the end of the tag.
---
 crates/seam/src/assemble/html.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 9cb7068..7188206 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -160,7 +160,7 @@ impl<'a> HTMLFormatter<'a> {
                     "pre" => { // <pre> should preserve the raw text in the *source* file.
                         // Find beginning and end byte offset of first and last token inside
                         // of `(pre ...)` and simply clone the text between those offsets.
-                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token);
+                        let pre = raw_text(rest_with_preserved_whitespace.first(), end_token)?;
                         write!(f, "{}", pre)?;
                     },
                     "textarea" | "title" => { // Not eaw source-code, but plain-text.
@@ -320,20 +320,25 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
 /// Does not work well if the `start_node` is a result of a macro expansion,
 /// it must be a plain node.
 /// Especially, the first node cannot be the result of an `(%include)` macro,
-/// i.e. from a different file (we explicitly crash in this case).
+/// i.e. from a different file (which is an error).
 /// This is a limitation from the fact that we do not know what kind of markup
 /// format we are targetting until *after* parsing and expanding.
-fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>) -> &'a str {
+fn raw_text<'a>(start_node: Option<&ParseNode<'a>>, end_token: &tokens::Token<'a>)
+-> Result<&'a str, GenerationError<'a>> {
     let Some(start_node) = start_node else {
-        return end_token.leading_whitespace;
+        return Ok(end_token.leading_whitespace);
     };
     if !std::ptr::eq(start_node.site().source_code, end_token.site.source_code) {
-        panic!("Start of preformatted text tag must belong to the same source location.");
+        return Err(GenerationError::new("HTML",
+            "Start of preformatted text tag must belong to the same source location.",
+            start_node.site()));
     }
     let source: &'a str = end_token.site.source_code;
-    let first_node_offset =
-          start_node.site().bytes_from_start
-        - start_node.leading_whitespace().len()
-        + if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
-    &source[first_node_offset..end_token.site.bytes_from_start]
+    let skip = if start_node.leading_whitespace().starts_with(' ') { 1 } else { 0 };
+    (start_node.site().bytes_from_start + skip)
+        .checked_sub(start_node.leading_whitespace().len())
+        .and_then(|first_node_offset| source.get(first_node_offset..end_token.site.bytes_from_start))
+        .ok_or_else(|| GenerationError::new("HTML",
+            "Preformatted text tag must start with a plain node within it.",
+            start_node.site()))
 }
-- 
2.43.0


From c06ae266f7cbd34a034bf86116bffa982da972fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 15/44] fix: report CSS rules without a selector

`()` and `(:property value)` panicked instead.
---
 crates/seam/src/assemble/css.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..8eb6770 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::Site;
 
 use std::slice::Iter;
 
@@ -179,7 +180,7 @@ fn generate_special_selector<'a>(f: Formatter,
                 }
                 parsing_rules = true;
                 write!(f, "{}", leading_whitespace)?;
-                generate_css_rule(f, rule.into_iter())?;
+                generate_css_rule(f, rule.into_iter(), arg.site())?;
             },
             _ => {
                 unexpected_node(&arg, parsing_rules)?;
@@ -191,14 +192,13 @@ fn generate_special_selector<'a>(f: Formatter,
     Ok(())
 }
 
-fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
+fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Site<'a>) -> Result<(), GenerationError<'a>> {
     let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
         .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +208,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             site));
     };
 
     // Handle special @-rule selectors.
@@ -257,7 +257,7 @@ impl<'a> MarkupFormatter for CSSFormatter<'a> {
             match node {
                 ParseNode::List { nodes: list, leading_whitespace, .. } => {
                     write!(f, "{}", leading_whitespace)?;
-                    generate_css_rule(f, list.into_iter())?;
+                    generate_css_rule(f, list.into_iter(), node.site())?;
                 },
                 ParseNode::Attribute { site, .. }  => {
                     return Err(GenerationError::new("CSS",
-- 
2.43.0


From bb4d9a7b647e64b82a74b40e3ea8cf52c5563eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 16/44] fix: balance braces of CSS @-rules without nested rules

`(@media screen)` generated a closing brace that was never opened.
---
 crates/seam/src/assemble/css.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 8eb6770..cf5e8b6 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -188,7 +188,8 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    // Without any rules, there is no block to close.
+    write!(f, "{}", if parsing_rules { "}" } else { ";" })?;
     Ok(())
 }
 
-- 
2.43.0


From 1344be911b91a2c791e93371933e779680076819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 17/44] fix: escape attribute values in HTML and XML

A quote in the value of an attribute ended it prematurely.
---
 crates/seam/src/assemble/html.rs |  6 +++---
 crates/seam/src/assemble/mod.rs  | 11 ++++++++++-
 crates/seam/src/assemble/xml.rs  |  6 +++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 7188206..4ec166d 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -1,7 +1,7 @@
 //! Assembles an expanded tree into valid HTML.
 use std::cell::RefCell;
 
-use super::{escape_xml, GenerationError, MarkupFormatter, Formatter};
+use super::{attribute_value, escape_xml, GenerationError, MarkupFormatter, Formatter};
 use super::{
     text::PlainTextFormatter,
     sexp::SExpFormatter,
@@ -96,12 +96,12 @@ impl<'a> HTMLFormatter<'a> {
                 }
 
                 while let Some(ParseNode::Attribute { node, keyword, leading_whitespace, .. }) = rest.first() {
-                    if let Some(atom) = (*node).atomic() {
+                    if let Some(value) = attribute_value(node) {
                         let leading_whitespace
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        write!(f, "{}=\"{}\"", keyword, value)?;
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 03675e0..4567c7d 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -1,4 +1,4 @@
-use crate::{impl_clone_box, CloneBox, parse::tokens::Site};
+use crate::{impl_clone_box, CloneBox, parse::{parser::ParseNode, tokens::Site}};
 use std::{convert, error::Error, fmt::{self, Debug}};
 
 use colored::*;
@@ -131,6 +131,15 @@ pub fn escape_xml(string: &str) -> String {
     }
 }
 
+/// Value of an attribute, escaped such that it can be quoted.
+/// Raw-content strings are left as they are.
+pub(crate) fn attribute_value<'a>(node: &ParseNode<'a>) -> Option<String> {
+    match node {
+        ParseNode::Raw(raw) => Some(raw.value.to_owned()),
+        _ => node.atomic().map(|atom| escape_xml(&atom.value)),
+    }
+}
+
 /// Re-constitute original S-expressions.
 pub mod sexp;
 /// Converts source into expanded plain-text.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index e8fa304..6c45838 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -1,7 +1,7 @@
 //! Assembles an expanded tree into valid XML.
 use std::cell::RefCell;
 
-use super::{escape_xml, MarkupFormatter, GenerationError, Formatter};
+use super::{attribute_value, escape_xml, MarkupFormatter, GenerationError, Formatter};
 use crate::parse::parser::{self, ParseNode, ParseTree};
 
 #[derive(Debug, Clone)]
@@ -172,8 +172,8 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
     let parser::ParseNode::Attribute { keyword, node, .. } = attr else {
         panic!("Passed non-attribute to display_attribute.")
     };
-    if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+    if let Some(value) = attribute_value(node) {
+        Ok(format!("{}=\"{}\"", keyword, value))
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From 9bd592fa01dc602505e7319fd8e6e1ebc0ce84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 18/44] fix: separate the items of XML declarations

`(!DOCTYPE note SYSTEM)` generated `<!DOCTYPEnoteSYSTEM>`.
---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 6c45838..4eeb4a2 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -70,7 +70,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From 15b897c6a94f2b845aee553f7b694ef38afc3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 19/44] fix: search include directories in the order given

They were kept in a sorted set, so the order of -I options had no effect.
---
 crates/seam/src/bin.rs            | 5 ++---
 crates/seam/src/parse/expander.rs | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..f0af211 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Vec::new();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index d56aad1..7fd552f 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -11,7 +11,6 @@ use std::{
     collections::{
         HashMap,
         BTreeMap,
-        BTreeSet,
     },
 };
 
@@ -89,7 +88,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Shared with all subcontexts, since the nodes they produce refer to
     /// the source-code of included files, and outlive the subcontext.
     subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
@@ -103,7 +102,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
@@ -123,7 +122,7 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            self.includes.push(dir.into());
         }
     }
 
-- 
2.43.0


From e80969dfcc92364efaae2aa3c4a81b3eaf063368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 20/44] fix: %namespace only exports what is defined within it

Every definition already in scope was duplicated under the namespace.
---
 crates/seam/src/parse/expander.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 7fd552f..6e0f24c 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1141,7 +1141,11 @@ impl<'a> Expander<'a> {
         {
             let mut self_defs = self.definitions.borrow_mut();
             let defs = context.definitions.borrow();
-            for (key, value) in defs.iter() {
+            // Definitions inherited from the current scope are not part of the namespace.
+            let defs: Vec<_> = defs.iter()
+                .filter(|(key, value)| !self_defs.get(*key).is_some_and(|def| Rc::ptr_eq(def, value)))
+                .collect();
+            for (key, value) in defs {
                 let new_key = format!("{}{}{}", namespace.value, separator, key);
                 self_defs.insert(new_key, value.clone());
             }
-- 
2.43.0


From ded31f10ec4e638c4af09b8e4508a071d3f08e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 21/44] fix: options containing dashes are taken as given

`-Idir--html` selected a target rather than adding an include directory,
and `--html--x` or `-v-x` were accepted.
---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index f0af211..d5aa7cd 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix("-") {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 940a4e34b71d820a6a2a3a420e183f76e88a3fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 22/44] fix: report format strings with misplaced braces or
 oversized widths

---
 crates/seam/src/parse/expander.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 6e0f24c..3d7c9a7 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1069,10 +1069,10 @@ impl<'a> Expander<'a> {
         // Iterate and collect format arguments.
         let mut arguments = params.iter();
         let _ = arguments.next();  // Skip the format-string.
+        let invalid = || ExpansionError::new("Invalid format string.", &format_str.site);
+        if !is_format_string(&format_str.value) { return Err(invalid()); }
         let Ok(mut template) = formatx::Template::new(&format_str.value) else {
-            return Err(ExpansionError::new(
-                "Invalid format string.",
-                &format_str.site));
+            return Err(invalid());
         };
         for mut var in arguments {
             // Check if we're replacing a named or positional placeholder.
@@ -1912,6 +1912,25 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// Check that placeholders in a format string are delimited properly, and ask for
+/// widths and precisions that can be formatted.
+fn is_format_string(format_str: &str) -> bool {
+    // Skip escaped braces.
+    let mut text = format_str.replace("{{", " ");
+    while let Some(close) = text.rfind("}}") {
+        text.replace_range(close..close + 2, " ");
+    }
+    let mut pieces = text.split('{');
+    if pieces.next().is_some_and(|before| before.contains('}')) { return false; }
+    pieces.all(|piece| {
+        let Some((placeholder, after)) = piece.split_once('}') else { return false };
+        let (_, spec) = placeholder.rsplit_once(':').unwrap_or_default();
+        !after.contains('}') && spec
+            .split(|c: char| !c.is_ascii_digit())
+            .all(|digits| digits.is_empty() || digits.parse::<u16>().is_ok())
+    })
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From b7895362a3777215f45e6912410bf26f0629f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 23/44] fix: %format inserts values containing braces as they
 are

---
 crates/seam/src/parse/expander.rs | 32 ++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3d7c9a7..c5b6cdd 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1090,8 +1090,8 @@ impl<'a> Expander<'a> {
             };
             // Replace the placeholder.
             match named {
-                Some(name) => template.replace(name, value),
-                None       => template.replace_positional(value),
+                Some(name) => template.replace(name, Verbatim(value)),
+                None       => template.replace_positional(Verbatim(value)),
             }
         }
         // Template has been constructed, so now attempt to do subsitituions and
@@ -1099,7 +1099,7 @@ impl<'a> Expander<'a> {
         match template.text() {
             Ok(value) => Ok(Box::new([
                 ParseNode::String(Node {
-                    value,
+                    value: Verbatim::reveal(&value),
                     site: node.owned_site(),
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
@@ -1912,6 +1912,32 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// A value inserted into a format string. Its braces are hidden (behind Unicode
+/// noncharacters), so that they are not mistaken for further placeholders.
+struct Verbatim<'a>(&'a str);
+
+impl<'a> Verbatim<'a> {
+    const HIDDEN: [(&'static str, &'static str); 2] = [("{", "\u{FDD0}"), ("}", "\u{FDD1}")];
+
+    fn hide(text: &str) -> String {
+        Self::HIDDEN.iter().fold(text.to_owned(), |text, (brace, hidden)| text.replace(brace, hidden))
+    }
+
+    fn reveal(text: &str) -> String {
+        Self::HIDDEN.iter().fold(text.to_owned(), |text, (brace, hidden)| text.replace(hidden, brace))
+    }
+}
+
+impl<'a> fmt::Display for Verbatim<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(&Self::hide(self.0)) }
+}
+
+impl<'a> fmt::Debug for Verbatim<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str(&Self::hide(&format!("{:?}", self.0)))
+    }
+}
+
 /// Check that placeholders in a format string are delimited properly, and ask for
 /// widths and precisions that can be formatted.
 fn is_format_string(format_str: &str) -> bool {
-- 
2.43.0


From eb431699a7b0ed3d77bcdf22eae94d2d707074ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 24/44] fix: a leading head stays outside of the body added
 around a document

---
 crates/seam/src/assemble/html.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 4ec166d..08756c4 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -34,6 +34,15 @@ impl<'a> HTMLFormatter<'a> {
         }
     }
 
+    /// Whether the first node is a `(head ...)` element.
+    fn starts_with_head(&self) -> bool {
+        self.tree.first()
+            .and_then(ParseNode::list)
+            .and_then(|list| list.first())
+            .and_then(ParseNode::atomic)
+            .is_some_and(|tag| tag.value.eq_ignore_ascii_case("head"))
+    }
+
     fn generate_html_node(&self, f: Formatter, node: &ParseNode<'a>) -> Result<(), GenerationError<'a>> {
         match node {
             ParseNode::Symbol(node)
@@ -276,6 +285,7 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
         let body_tag
             = self.tree.search_node(SearchType::ListHead, "body", true, 2);
 
+        let mut content = &self.tree[..];
         if doctype_tag.is_none() {
             #[cfg(feature="debug")]
             eprintln!("html: no doctype found in document");
@@ -286,12 +296,20 @@ impl<'a> MarkupFormatter for HTMLFormatter<'a> {
                     doc += "<head></head>\n"
                 }
                 if body_tag.is_none() {
+                    // A head given first comes before the body, not inside of it.
+                    if self.starts_with_head() {
+                        self.generate_html_node(&mut doc, &content[0])?;
+                        doc += "\n";
+                        content = &content[1..];
+                    }
                     doc += "<body>\n"
                 }
             }
         }
         // Populate.
-        doc += &self.display()?;
+        for node in content {
+            self.generate_html_node(&mut doc, node)?;
+        }
         doc += "\n";
 
         if doctype_tag.is_none() {
-- 
2.43.0


From 1aa07f3d8f4de3f6a37975adf78897426c7c1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 25/44] fix: null characters in S-expression output read back
 as themselves

---
 crates/seam/src/assemble/sexp.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/assemble/sexp.rs b/crates/seam/src/assemble/sexp.rs
index 5c812f4..a376c3a 100644
--- a/crates/seam/src/assemble/sexp.rs
+++ b/crates/seam/src/assemble/sexp.rs
@@ -36,16 +36,16 @@ impl<'a> SExpFormatter<'a> {
             },
             ParseNode::String(node) => {
                 // We actually don't want the rendered string with the escpaes
-                // that we parsed, so we send it to the debug view to get a string
-                // with quotes and escaped special characters.
+                // that we parsed, so we write it with quotes and escaped
+                // special characters.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "{:?}", node.value)?;
+                write!(f, "\"{}\"", escape(&node.value))?;
             },
             ParseNode::Raw(node) => {
                 // This is the only place we can't really expand
                 // the `(%raw ...)` macro. It is meaningful.
                 write!(f, "{}", node.leading_whitespace)?;
-                write!(f, "(%raw {:?})", node.value)?;
+                write!(f, "(%raw \"{}\")", escape(&node.value))?;
             },
             ParseNode::List { nodes, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
@@ -69,6 +69,20 @@ impl<'a> SExpFormatter<'a> {
 
 }
 
+/// Escapes such that reading the string literal gives the same string.
+fn escape(string: &str) -> String {
+    let mut escaped = String::with_capacity(string.len());
+    for c in string.chars() {
+        match c {
+            '\'' => escaped.push(c),
+            // A `\0` would run into an octal digit that follows.
+            '\0' => escaped.push_str("\\x00"),
+            _ => escaped.extend(c.escape_debug()),
+        }
+    }
+    escaped
+}
+
 impl<'a> MarkupFormatter for SExpFormatter<'a> {
     fn document(&self) -> Result<String, GenerationError> {
         self.display()
-- 
2.43.0


From 9ba9aaf53cfa1d7bc15cfaad0c47e106746b1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 26/44] fix: CSS rules without properties are rules as well

---
 crates/seam/src/assemble/css.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index cf5e8b6..f67e1ba 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -194,11 +194,10 @@ fn generate_special_selector<'a>(f: Formatter,
 }
 
 fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Site<'a>) -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
+        .take_while(|n| n.atomic().is_some())
         .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
@@ -226,7 +225,8 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>, site: &Sit
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    // Properties follow the selectors; there may be none.
+    let properties = iter.skip_while(|n| n.atomic().is_some());
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
-- 
2.43.0


From 8d24425db9f7975ba1c7ce0828aa5f3cb0f70253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 27/44] fix: white space at the end of preformatted text is not
 doubled

---
 crates/seam/src/assemble/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 08756c4..07482b0 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -220,7 +220,9 @@ impl<'a> HTMLFormatter<'a> {
                     },
                 }
                 // Closing tag should be equally as spaced as opening tag (?)
-                if end_token.leading_whitespace.is_empty() {
+                // Preformatted text already includes all white space before its end.
+                if tag == "pre" {
+                } else if end_token.leading_whitespace.is_empty() {
                     if is_first_node_on_next_line || tag == "style" {
                         write!(f, "{}", leading_whitespace)?;
                     }
-- 
2.43.0


From 3d22d846779f5ae97a8e37269507e94fc35bc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 28/44] fix: %timestamp reports impossible timezone offsets

---
 crates/seam/src/parse/expander.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index c5b6cdd..cfb8284 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -977,7 +977,16 @@ impl<'a> Expander<'a> {
             ));
         };
 
-        let timestamp = if let Ok(datetime) = chrono::DateTime::parse_from_str(&date_string, &format) {
+        let datetime = chrono::DateTime::parse_from_str(&date_string, &format);
+        match datetime {
+            // The timezone given cannot be ignored only because it is an impossible one.
+            Err(err) if err.kind() == chrono::format::ParseErrorKind::OutOfRange => return Err(ExpansionError(
+                format!("Failed to parse date: {}", err),
+                node.owned_site(),
+            )),
+            _ => {},
+        }
+        let timestamp = if let Ok(datetime) = datetime {
             // Timezone information already given. Ignore any `:timezone` attribute.
             datetime.timestamp()
         } else {
-- 
2.43.0


From 690e41f292ce670d2c982e4f18bc26382116fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 29/44] fix: %timestamp accepted contradictory timezones

---
 crates/seam/src/parse/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index cfb8284..0a5540d 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -979,8 +979,9 @@ impl<'a> Expander<'a> {
 
         let datetime = chrono::DateTime::parse_from_str(&date_string, &format);
         match datetime {
-            // The timezone given cannot be ignored only because it is an impossible one.
-            Err(err) if err.kind() == chrono::format::ParseErrorKind::OutOfRange => return Err(ExpansionError(
+            // Only a date without a timezone may take that of the `:timezone` attribute,
+            // not one with an impossible or contradictory timezone.
+            Err(err) if err.kind() != chrono::format::ParseErrorKind::NotEnough => return Err(ExpansionError(
                 format!("Failed to parse date: {}", err),
                 node.owned_site(),
             )),
-- 
2.43.0


From 6bd72c31784adfb3d98bc9a4f8e056f252ca337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 30/44] fix: %format turned literal [curly=open] and
 [curly=close] into braces

---
 crates/seam/src/parse/expander.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0a5540d..bacf718 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1081,7 +1081,9 @@ impl<'a> Expander<'a> {
         let _ = arguments.next();  // Skip the format-string.
         let invalid = || ExpansionError::new("Invalid format string.", &format_str.site);
         if !is_format_string(&format_str.value) { return Err(invalid()); }
-        let Ok(mut template) = formatx::Template::new(&format_str.value) else {
+        // Brackets are hidden too, as `[curly=open]` would otherwise become a brace.
+        let text = Verbatim::hide_brackets(&format_str.value);
+        let Ok(mut template) = formatx::Template::new(text) else {
             return Err(invalid());
         };
         for mut var in arguments {
@@ -1100,7 +1102,7 @@ impl<'a> Expander<'a> {
             };
             // Replace the placeholder.
             match named {
-                Some(name) => template.replace(name, Verbatim(value)),
+                Some(name) => template.replace(Verbatim::hide_brackets(name), Verbatim(value)),
                 None       => template.replace_positional(Verbatim(value)),
             }
         }
@@ -1922,12 +1924,17 @@ impl<'a> Expander<'a> {
     }
 }
 
-/// A value inserted into a format string. Its braces are hidden (behind Unicode
-/// noncharacters), so that they are not mistaken for further placeholders.
+/// A value inserted into a format string. Its braces and brackets are hidden (behind
+/// Unicode noncharacters), so that they are not mistaken for further placeholders, or
+/// for the `[curly=open]` and `[curly=close]` that `formatx` puts for escaped braces.
 struct Verbatim<'a>(&'a str);
 
 impl<'a> Verbatim<'a> {
-    const HIDDEN: [(&'static str, &'static str); 2] = [("{", "\u{FDD0}"), ("}", "\u{FDD1}")];
+    const HIDDEN: [(&'static str, &'static str); 3] = [
+        ("{", "\u{FDD0}"), ("}", "\u{FDD1}"), ("[", "\u{FDD2}"),
+    ];
+
+    fn hide_brackets(text: &str) -> String { text.replace("[", "\u{FDD2}") }
 
     fn hide(text: &str) -> String {
         Self::HIDDEN.iter().fold(text.to_owned(), |text, (brace, hidden)| text.replace(brace, hidden))
-- 
2.43.0


From eca0e06d243a7a7e084bec2c5f361fb8791cc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 31/44] fix: %format ignored parts of a placeholder that it did
 not understand

---
 crates/seam/src/parse/expander.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index bacf718..73c2dd9 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1968,12 +1968,34 @@ fn is_format_string(format_str: &str) -> bool {
     pieces.all(|piece| {
         let Some((placeholder, after)) = piece.split_once('}') else { return false };
         let (_, spec) = placeholder.rsplit_once(':').unwrap_or_default();
-        !after.contains('}') && spec
+        !after.contains('}') && is_format_spec(spec) && spec
             .split(|c: char| !c.is_ascii_digit())
             .all(|digits| digits.is_empty() || digits.parse::<u16>().is_ok())
     })
 }
 
+/// Check that what follows the colon of a placeholder is understood in full, i.e. that
+/// it is `[[fill]align][sign]['#']['0'][width]['.' precision]['?']`.
+fn is_format_spec(spec: &str) -> bool {
+    let is_align = |c: char| matches!(c, '<' | '^' | '>');
+    let is_digit = |c: char| c.is_ascii_digit();
+    let mut chars = spec.chars();
+    let spec = match (chars.next(), chars.next()) {
+        (Some(_), Some(align)) if is_align(align) => chars.as_str(),
+        (Some(align), _)       if is_align(align) => &spec[1..],
+        _ => spec,
+    };
+    let spec = spec.strip_prefix(['+', '-']).unwrap_or(spec);
+    let spec = spec.strip_prefix('#').unwrap_or(spec);
+    let spec = spec.trim_start_matches(is_digit);
+    let spec = match spec.strip_prefix('.') {
+        Some(precision) if precision.starts_with(is_digit) => precision.trim_start_matches(is_digit),
+        Some(_) => return false,
+        None => spec,
+    };
+    matches!(spec, "" | "?")
+}
+
 /// For example, the YAML below,
 /// ```yaml
 /// a: 2
-- 
2.43.0


From 9dd6ed65db05c1a23b77378c98eebe742beb76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 32/44] fix: %glob listed a path more than once

---
 crates/seam/src/parse/expander.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 73c2dd9..917a991 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1308,6 +1308,8 @@ impl<'a> Expander<'a> {
 
         // Collect paths.
         let mut collection: std::collections::BTreeSet<GlobPath> = Default::default();
+        // Patterns with more than one `**` may find a path in several ways.
+        let mut found: std::collections::HashSet<PathBuf> = Default::default();
         for path in paths {
             let path = match path {
                 Ok(path) => path,
@@ -1316,6 +1318,7 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
+            if !found.insert(path.clone()) { continue; }
             let meta = match std::fs::metadata(&path) {
                 Ok(meta) => meta,
                 Err(err) => return Err(ExpansionError(
-- 
2.43.0


From a7e239f4e068f7b12c943a63ae3f37386e8e33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 33/44] fix: arguments that are not valid Unicode are refused
 instead of crashing the program

---
 crates/seam/src/bin.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index d5aa7cd..a466486 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -17,7 +17,7 @@ fn argument_fatal(msg: impl std::fmt::Display) -> ! {
 const SUPPORTED_TARGETS: [&str; 5] = ["text", "sexp", "html", "xml", "css"];
 
 fn main() -> Result<(), Box<dyn Error>> {
-    let mut args = env::args();
+    let mut args = env::args_os();
     let _ = args.next();  // Discard.
 
     // Command line flags and options.
@@ -28,6 +28,8 @@ fn main() -> Result<(), Box<dyn Error>> {
     let mut is_doc = true;
 
     for arg in args {
+        let arg = arg.into_string().unwrap_or_else(|arg| argument_fatal(
+            format!("Argument is not valid Unicode: `{}'.", arg.to_string_lossy())));
         if arg.chars().nth(0) == Some('-') {
             if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
-- 
2.43.0


From 0ca5ba2a64febf2dc1a63c5fdb7740227587b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 34/44] fix: an input that cannot be read is named in the error

---
 crates/seam/src/bin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index a466486..2d023af 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -82,13 +82,15 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     if from_stdin {
         let mut stdin = io::stdin();
-        let mut builder = seam::tree_builder_stream(&mut stdin)?;
+        let mut builder = seam::tree_builder_stream(&mut stdin)
+            .unwrap_or_else(|e| argument_fatal(format!("Cannot read `<stdin>': {}.", e)));
         builder.add_includes(include_dirs.iter());
         generate_and_print(&builder, &target, is_doc);
     }
 
     for file in files {
-        let mut builder = seam::tree_builder_file(&file)?;
+        let mut builder = seam::tree_builder_file(&file)
+            .unwrap_or_else(|e| argument_fatal(format!("Cannot read `{}': {}.", file.to_string_lossy(), e)));
         builder.add_includes(include_dirs.iter());
         generate_and_print(&builder, &target, is_doc);
     }
-- 
2.43.0


From 832aef6b9b797fa7563fe6b3e163b6dc5ed9a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 35/44] fix: output that cannot be written is an error instead
 of a crash

---
 crates/seam/src/bin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 2d023af..9fac55c 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,7 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::{io, env};
+use std::{io::{self, Write}, env};
 use std::path::PathBuf;
 use std::error::Error;
 
@@ -127,7 +127,9 @@ fn generate_and_print<'a>(expander: &'a seam::parse::expander::Expander<'a>, tar
     };
 
     match result {
-        Ok(generated) => println!("{}", generated),
+        Ok(generated) => if let Err(e) = writeln!(io::stdout(), "{}", generated) {
+            argument_fatal(format!("Cannot write output: {}.", e));
+        },
         Err(e) => {
             eprintln!("{}", e);
             std::process::exit(1)
-- 
2.43.0


From ff79fb486e6f70b4f219e018ea78762824b6aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 36/44] fix: an error of %format names what is missing in the
 same order every time

---
 crates/seam/src/parse/expander.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 917a991..3ece7cc 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1116,9 +1116,21 @@ impl<'a> Expander<'a> {
                     leading_whitespace: node.leading_whitespace().to_owned(),
                 })
             ])),
-            Err(err) => Err(ExpansionError(
-                format!("Failed to format string: {}", err.message()),
-                format_str.site.clone()))
+            Err(err) => {
+                // The names that are missing come in an arbitrary order.
+                let message = Verbatim::reveal(&err.message());
+                let message = match message.split_once(": ") {
+                    Some((problem, names)) => {
+                        let mut names: Vec<&str> = names.split(", ").collect();
+                        names.sort();
+                        format!("{}: {}", problem, names.join(", "))
+                    },
+                    None => message,
+                };
+                Err(ExpansionError(
+                    format!("Failed to format string: {}", message),
+                    format_str.site.clone()))
+            }
         }
     }
 
-- 
2.43.0


From cf5095ad204e4d2908d78869e70d863a60e6991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 37/44] fix: markdown that only seems to start with frontmatter
 panicked, or was converted wrongly

---
 crates/seam/src/parse/expander.rs | 60 +++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 3ece7cc..c46bf16 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -723,12 +723,15 @@ impl<'a> Expander<'a> {
           allow_dangerous_protocol: true,
           ..markdown::CompileOptions::default()
         };
+        // Converting content that only seems to start with frontmatter confuses the
+        // `markdown' crate, so it is told to look for some only if there is any.
+        let frontmatter = markdown_frontmatter(contents.as_ref());
         // Flavour options:
         let flavour = markdown::ParseOptions {
             gfm_strikethrough_single_tilde: false,
             math_text_single_dollar: true,
             constructs: markdown::Constructs {
-                frontmatter: true,
+                frontmatter: frontmatter.is_some(),
                 gfm_table: true,
                 gfm_task_list_item: true,
                 ..markdown::Constructs::default()
@@ -761,23 +764,13 @@ impl<'a> Expander<'a> {
         // How to extract front-matter.
         let extract_frontmatter = | | -> Result<(), _> {
             use markdown::mdast;
-            let ast = match markdown::to_mdast(contents.as_ref(), &options.parse) {
-                Ok(ast) => ast,
-                Err(err) => return Err(ExpansionError(
-                    format!("Failed to render markdown: {}", err),
-                    args.number.1.site.to_owned(),
-                ))
-            };
-            let mdast::Node::Root(root) = ast else { unreachable!() };
-            let root = root.children;
-            let root: &[mdast::Node] = root.as_ref();
-            match root {
-                [mdast::Node::Yaml(mdast::Yaml { value: yaml, .. }), ..] => {
+            match frontmatter {
+                Some(mdast::Node::Yaml(mdast::Yaml { value: ref yaml, .. })) => {
                     // Parse the YAML and convert it into macro definitions.
                     let _ = expand_yaml(self, yaml, &sep, node.site())?;
                     Ok(())
                 },
-                [mdast::Node::Toml(mdast::Toml { value: toml, .. }), ..] => {
+                Some(mdast::Node::Toml(mdast::Toml { value: ref toml, .. })) => {
                     // Parse the TOML and convert it into macro definitions.
                     let _ = expand_toml(self, toml, &sep, node.site())?;
                     Ok(())
@@ -1939,6 +1932,45 @@ impl<'a> Expander<'a> {
     }
 }
 
+/// The frontmatter that a markdown text starts with, if any. Nothing else is parsed.
+fn markdown_frontmatter(text: &str) -> Option<markdown::mdast::Node> {
+    use markdown::mdast::Node;
+    let options = markdown::ParseOptions {
+        constructs: markdown::Constructs {
+            frontmatter: true,
+            attention: false,
+            autolink: false,
+            block_quote: false,
+            character_escape: false,
+            character_reference: false,
+            code_indented: false,
+            code_fenced: false,
+            code_text: false,
+            definition: false,
+            hard_break_escape: false,
+            hard_break_trailing: false,
+            heading_atx: false,
+            heading_setext: false,
+            html_flow: false,
+            html_text: false,
+            label_start_image: false,
+            label_start_link: false,
+            label_end: false,
+            list_item: false,
+            thematic_break: false,
+            ..markdown::Constructs::default()
+        },
+        ..markdown::ParseOptions::default()
+    };
+    match markdown::to_mdast(text, &options) {
+        Ok(Node::Root(root)) => match root.children.into_iter().next() {
+            Some(first @ (Node::Yaml(_) | Node::Toml(_))) => Some(first),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
 /// A value inserted into a format string. Its braces and brackets are hidden (behind
 /// Unicode noncharacters), so that they are not mistaken for further placeholders, or
 /// for the `[curly=open]` and `[curly=close]` that `formatx` puts for escaped braces.
-- 
2.43.0


From 90f337a8af2e70faa4a95c58f6733e9d1f63815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 38/44] fix: a panic of the markdown crate is an error of the
 document

---
 crates/seam/src/parse/expander.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index c46bf16..9ef0be0 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -743,13 +743,19 @@ impl<'a> Expander<'a> {
 
         // How to convert to HTML.
         let to_html = | | -> Result<ParseTree, _> {
-            // Convert to HTML.
-            let html = match markdown::to_html_with_options(contents.as_ref(), &options) {
-                Ok(html) => html,
-                Err(err) => return Err(ExpansionError(
+            // Convert to HTML. The `markdown' crate panics on some (rare) texts.
+            let html = std::panic::catch_unwind(std::panic::AssertUnwindSafe(||
+                markdown::to_html_with_options(contents.as_ref(), &options)));
+            let html = match html {
+                Ok(Ok(html)) => html,
+                Ok(Err(err)) => return Err(ExpansionError(
                     format!("Failed to render markdown: {}", err),
                     args.number.1.site.to_owned(),
-                ))
+                )),
+                Err(_) => return Err(ExpansionError::new(
+                    "Failed to render markdown.",
+                    &args.number.1.site,
+                )),
             };
             // Return the raw html.
             Ok(Box::new([
-- 
2.43.0


From 66fe4f6ac857a3d127d65d39768eece8208071c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 39/44] fix: strings in CSS are escaped as CSS escapes, not as
 Rust does

---
 crates/seam/src/assemble/css.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index f67e1ba..1c3518e 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -65,6 +65,20 @@ const CSS_NON_NESTED_SELECTORS: [&str; 3]
 /// or at least I think.
 const BINARY_OPERATORS: [&str; 4] = ["+", "-", "*", "/"];
 
+/// Text as a CSS string: quoted, and escaped as CSS escapes.
+fn css_string(text: &str) -> String {
+    let mut string = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => string.extend(['\\', c]),
+            c if c.is_control() => string.push_str(&format!("\\{:x} ", c as u32)),
+            c => string.push(c),
+        }
+    }
+    string.push('"');
+    string
+}
+
 fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<'a>> {
     match node {
         ParseNode::List { nodes: list, .. } => {
@@ -103,7 +117,7 @@ fn convert_value<'a>(node: &'a ParseNode<'a>) -> Result<String, GenerationError<
         | ParseNode::Symbol(node)
         | ParseNode::String(node) =>
             Ok(if node.value.chars().any(|c| c.is_whitespace()) {
-                format!("{:?}", node.value)
+                css_string(&node.value)
             } else {
                 node.value.to_owned()
             }),
-- 
2.43.0


From cadc8c9250902d38f073fc28cc8fc2afcb6e22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 40/44] fix: errors far along a line are reported instead of
 crashing the program

---
 crates/seam/src/assemble/mod.rs   | 8 ++++----
 crates/seam/src/parse/expander.rs | 8 ++++----
 crates/seam/src/parse/lexer.rs    | 8 ++++----
 crates/seam/src/parse/parser.rs   | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/seam/src/assemble/mod.rs b/crates/seam/src/assemble/mod.rs
index 4567c7d..449a230 100644
--- a/crates/seam/src/assemble/mod.rs
+++ b/crates/seam/src/assemble/mod.rs
@@ -30,10 +30,10 @@ impl<'a> fmt::Display for GenerationError<'a> {
         let line_prefix = format!("  {} |", self.site.line);
         let line_view = self.site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=self.site.line_column() - 1,
-            length=self.site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(self.site.line_column() - 1),
+            "^".repeat(self.site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "{}: {}",
             format!("[{}] Error Generating {} ({}:{}:{})",
                 "**".red().bold(),
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9ef0be0..98bf08c 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -43,10 +43,10 @@ impl<'a> fmt::Display for ExpansionError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[{}] Error Expanding Macro {}: {}",
             "**".red().bold(), site, msg)
     }
diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index fa31b5c..cc4ff8e 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -15,10 +15,10 @@ impl<'a> fmt::Display for LexError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Lexical Error {}: {}", site, msg)
     }
 }
diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 9d85eea..3d57f76 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -390,10 +390,10 @@ impl<'a> fmt::Display for ParseError<'a> {
         let line_prefix = format!("  {} |", site.line);
         let line_view = site.line_slice();
         writeln!(f, "{} {}", line_prefix, line_view)?;
-        writeln!(f, "{:>prefix_offset$} {:~>text_offset$}{:^>length$}", "|", "", "",
-            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()),
-            text_offset=site.line_column() - 1,
-            length=site.width())?;
+        writeln!(f, "{:>prefix_offset$} {}{}", "|",
+            "~".repeat(site.line_column() - 1),
+            "^".repeat(site.width()),
+            prefix_offset=UnicodeWidthStr::width(line_prefix.as_str()))?;
         write!(f, "[**] Parse Error ({}:{}:{}): {}",
             site.source, site.line, site.line_column(), msg)
     }
-- 
2.43.0


From 3d1af614fbb48e97d1b38938a2ef2411f1aba69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 41/44] fix: cloning a boxed formatter clones it instead of
 overflowing the stack

---
 crates/seam/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..a55c5be 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -41,8 +41,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $tra:ty) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone what is in the box (not the box), and keep its vtable.
+                let mut raw = &**self as *const $tra as *mut $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    *(&mut raw as *mut *mut $tra as *mut *mut ()) = (**self).clone_box();
+                    Box::from_raw(raw)
                 }
             }
         }
@@ -50,8 +53,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
         impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // Clone what is in the box (not the box), and keep its vtable.
+                let mut raw = &**self as *const $tra as *mut $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    *(&mut raw as *mut *mut $tra as *mut *mut ()) = (**self).clone_box();
+                    Box::from_raw(raw)
                 }
             }
         }
-- 
2.43.0


From e43f1f33050c40d0c9ff8c15bd23afbc7034c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:19 +0000
Subject: [PATCH 42/44] fix: a call that fails leaves no copy of its scope
 behind, which doubled memory each time

---
 crates/seam/src/parse/expander.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 98bf08c..be65e8b 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1763,13 +1763,13 @@ impl<'a> Expander<'a> {
         // Instance of expansion subcontext.
         let subcontext = self.create_subcontext();
         // Construct fake list of arguments and parameters and pattern match on them.
-        subcontext.bind_list(node, &mac.params, &params)?;
-        // Expand body.
-        let expanded = subcontext.expand_nodes(mac.body.clone())?.to_vec();
-        // Finished expanding macro, delete the subcontext.
+        let expanded = subcontext.bind_list(node, &mac.params, &params)
+            // Expand body.
+            .and_then(|()| subcontext.expand_nodes(mac.body.clone()));
+        // Finished expanding macro (or failed to), delete the subcontext.
         self.remove_subcontext();
         // Return the body of the evaluated macro.
-        Ok(expanded.into_boxed_slice())
+        expanded
     }
 
     fn expand_macro(&self, name: &str, node: &ParseNode<'a>, params: ParseTree<'a>)
-- 
2.43.0


From bffb6f61c69160560fe05c70740c4f1f77a8fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:58 +0000
Subject: [PATCH 43/44] fix: an invalid escape is named by its own character,
 not one further on in the string

---
 crates/seam/src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 3d57f76..d963f1a 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -537,7 +537,7 @@ fn escape_string<'a>(string: &'a str, site: &Site<'a>) -> Result<String, LexErro
         .map_err(|invalid| {
             LexError(
                 format!("Invalid escape `\\{}' at byte-index {}.",
-                    string.chars().nth(invalid.index).unwrap_or('?'), invalid.index),
+                    string.get(invalid.index..).and_then(|escape| escape.chars().nth(1)).unwrap_or('?'), invalid.index),
                 site.clone())
         })
 }
-- 
2.43.0


From 6617e09ffe875402a39d92e5b0849fc7d696804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:59 +0000
Subject: [PATCH 44/44] fix: sorting by type puts pipes, sockets and devices
 among the files, so that there is one order

---
 crates/seam/src/parse/expander.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index be65e8b..5d24683 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1284,9 +1284,9 @@ impl<'a> Expander<'a> {
                     SortBy::Name => self.path.partial_cmp(&other.path),
                     SortBy::Type => {
                         // First sort by file vs. dir.
-                        if self.meta.is_dir() && other.meta.is_file() {
+                        if self.meta.is_dir() && !other.meta.is_dir() {
                             Some(std::cmp::Ordering::Less) // Folder < File
-                        } else if self.meta.is_file() && other.meta.is_dir() {
+                        } else if !self.meta.is_dir() && other.meta.is_dir() {
                             Some(std::cmp::Ordering::Greater) // File > Folder
                         } else if let Some(ext) = self.path.extension() {
                             if let Some(other_ext) = other.path.extension() {
-- 
2.43.0

