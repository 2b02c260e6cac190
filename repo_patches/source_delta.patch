From 0ddad354bcc620d6b8f8be97b4b1be704d294cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 1/8] fix: wrap on overflow in the unary minus of plural
 formulas, like the other operators

---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 6f0197965d2f9cd463825f59dbe8a89052a9c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 2/8] fix: do not evaluate a plural formula on a count wrapped
 to a negative number

---
 src/plural/formula/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..3956f48 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -28,7 +28,7 @@ impl Formula {
     }
 
     pub(super) fn execute(&self, count: usize) -> Option<usize> {
-        let res = self.expr.execute(count as i64);
+        let res = self.expr.execute(i64::try_from(count).ok()?);
 
         if res < 0 {
             None
-- 
2.43.0


From 4f0e5cdc86d475907cb3f1fa8306b7fa59f8f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 3/8] fix: do not panic on a non-ASCII language in the header

---
 src/po/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 1d0ecbf..c9875fb 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -198,7 +198,14 @@ impl<'p, R: Read> PoReader<'p, R> {
             if let Some(lang) = self.header_properties.get("Language") {
                 self.target_language = LanguageRange::new(lang)
                     .map(LanguageRange::into_static)
-                    .or_else(|_| LanguageRange::from_unix(lang))
+                    .or_else(|err| {
+                        // `from_unix` panics on some non-ASCII input (it slices by bytes)
+                        if lang.is_ascii() {
+                            LanguageRange::from_unix(lang)
+                        } else {
+                            Err(err)
+                        }
+                    })
                     .unwrap_or_else(|_| LanguageRange::invariant());
             }
 
-- 
2.43.0


From cfa9cfffebfc33317ebbf622d181e7208a651d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 4/8] fix: stop at the first missing plural variant instead of
 shifting the next ones

---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 8f1dea3b3d2216907448d2c4e5b8fe05a9ba46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 5/8] fix: do not take a quoted translator comment for a string
 or a message

---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From a1e2288414b9b72348f7da7c684d28405396f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 6/8] fix: make `==` and `!=` bind less tightly than the
 relational operators, as in C

---
 src/plural/formula/formula.lalrpop | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..fad549e 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -20,14 +20,18 @@ Or: Node = {
 };
 
 And: Node = {
-    <l:And> "&&" <r:Logical> => Node::new_binop(BinOp::And, l, r),
-    <l:And> "and" <r:Logical> => Node::new_binop(BinOp::And, l, r),
+    <l:And> "&&" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    <l:And> "and" <r:Equality> => Node::new_binop(BinOp::And, l, r),
+    Equality,
+};
+
+Equality: Node = {
+    <l:Equality> "==" <r:Logical> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Equality> "!=" <r:Logical> => Node::new_binop(BinOp::Ne, l, r),
     Logical,
 };
 
 Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
     <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
     <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
     <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-- 
2.43.0


From 4d679ae5dbab996ab45362efbecad114722f89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 7/8] fix: bound the length of plural formulas, a deep one
 overflowed the stack

---
 src/plural/formula/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 3956f48..f92ad35 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -5,6 +5,9 @@ use lalrpop_util::{lalrpop_mod, ParseError};
 
 lalrpop_mod!(formula, "/plural/formula/formula.rs");
 
+/// Maximum length of the source of a formula (the deeper a formula is, the more stack its evaluation needs)
+const MAX_SOURCE_LENGTH: usize = 2048;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub(super) struct Formula {
     expr: node::Node,
@@ -18,6 +21,13 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_SOURCE_LENGTH {
+            return Err(Error::PluralForms(format!(
+                "formula longer than {} bytes",
+                MAX_SOURCE_LENGTH
+            )));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0


From 818f35fb0637ec14aa8f595bd720cbb83614bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 8/8] fix: do not drop the fields of a first entry that has no
 msgid

---
 src/po/message_extractor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index 6d95de3..0b8eebd 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -28,6 +28,7 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
 
         // previous source
         let prev_msgid = self.parse_msg("|msgid")?;
+        let has_prev_msgid = prev_msgid.is_some();
         let prev_msgid_pl = match prev_msgid {
             Some(_) => self.parse_msg("|msgid_plural")?,
             None => None,
@@ -42,14 +43,20 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
         // source
         let msgid = self.parse_msg("msgid")?;
 
-        if (!first) && msgid.is_none() {
+        // only a first entry without any field can stand for an absent header
+        let started = prev_context.is_some() || has_prev_msgid || context.is_some();
+
+        if msgid.is_none() && (started || !first) {
             self.expected("msgid")?;
 
             return Ok(None);
         }
 
         // plural
-        let msgid_pl = self.parse_msg("msgid_plural")?;
+        let msgid_pl = match msgid {
+            Some(_) => self.parse_msg("msgid_plural")?,
+            None => None,
+        };
 
         let message = match self.new_message(msgid, msgid_pl)? {
             Some(msg) => msg,
-- 
2.43.0

