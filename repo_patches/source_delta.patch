From 7edc735cd2f38c25e8e5c8f660e5aed071cf9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:35 +0000
Subject: [PATCH 01/15] fix: keep the text before a named tuple when its name
 is not written

The tuple writer removed the last character of the buffer whenever the
tuple had a name, also when the name was not printed. That swallowed the
bracket or space written before the tuple.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 62e9acdad9340ed4ac88db4b22384c506379c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:43 +0000
Subject: [PATCH 02/15] fix: refuse verbose layout for map keys

A formatter starts map keys at concise, but a later request or a width
limit of zero could still make them verbose. The width solver then
panicked, and the written text could not be read back.
---
 src/fmt/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..2c95aa5 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -300,7 +300,11 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let mut max_line_repr = max_line_repr(&node.value());
+        if node.is_key() {
+            // map keys can be at most concise
+            max_line_repr = std::cmp::min(max_line_repr, Repr::Concise);
+        }
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
-- 
2.43.0


From 175051510cc121c03a0071733344a0dba9f895d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:51 +0000
Subject: [PATCH 03/15] fix: parse map keys once

Each map key was tried in both layouts, so a text with n nested opening
braces took time exponential in n to be refused. The first attempt
already covers both layouts.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..7fa3ede 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise,
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From ef0ac5cf2a5f3b854b786d66981f87c8eb5a524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:12 +0000
Subject: [PATCH 04/15] fix: write large floats in exponent form

The digits of a large float were padded with zeros, which reads back as
an integer of another value, or, beyond 128 bits, not at all.
---
 src/ds/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..42e92d5 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -215,6 +215,8 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // written out in full, these would read back as (other or too large) integers
+            Float(x) if x.is_finite() && x.abs() >= 1e15 => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
-- 
2.43.0


From 7b757b77ab7cb851bca6abd58abefb710ccd18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:32 +0000
Subject: [PATCH 05/15] fix: choose string delimiters that can be read back

A string delimited with '=', '_' or '(' could be taken for a field
assignment or a named tuple when read. Strings that use every delimiter
made the formatter panic; they now get a delimiter they do not contain.
---
 src/fmt/prims.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..c22325b 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -39,8 +39,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +53,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +63,12 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        // a string is finite, so there is always a character it does not use
+        let d = ('\u{a1}'..).find(|&d| !val.contains(d)).unwrap_or('\u{a1}');
+        write!(buf, "str{}{}{}", d, val, d)
     }
     .ok();
 }
@@ -96,7 +92,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +99,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +123,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +130,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From 8f3d0d7752920cd52558203d99eaad9284d9e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:04 +0000
Subject: [PATCH 06/15] fix: do not take a string containing '=' for a field
 assignment

A tuple or sequence whose first line holds a string with its own
delimiter and an equals sign, such as (1, str#a="'#), was read as a
container and refused.
---
 src/parse/heuristics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..094d9fc 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -108,7 +108,16 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],='\"\r\n";
+    // a string with its own delimiter is not a name, whatever it contains
+    let delimited_str = i
+        .strip_prefix("str")
+        .and_then(|x| x.chars().next())
+        .map_or(false, |c| !c.is_ascii_alphanumeric() && !"-_= \t".contains(c));
+    if delimited_str {
+        return false;
+    }
+
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
     terminated(maybe_names, char('='))(i).is_ok()
-- 
2.43.0


From 09d64d9db57f40e4f7a56d12d0385461bfc3565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:00 +0000
Subject: [PATCH 07/15] fix: read an inline sequence starting with '[[' or
 holding one word

A root sequence such as [[1], [2]] or [true] was taken for the header of
a verbose field and refused. Headers stand alone on their line, so the
rest of the line decides. A header with an identity is recognised too.
---
 src/parse/cntr.rs       |  2 +-
 src/parse/heuristics.rs | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..4437890 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -302,7 +302,7 @@ fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResu
 
 /// Ignores all whitespace around name and identity. Field name _must_ exist, and if there is a
 /// separator (`:`) then the identity _must_ exist as well.
-fn verbose_field_name_and_identity<'a, E: CxErr<'a>>(
+pub(super) fn verbose_field_name_and_identity<'a, E: CxErr<'a>>(
     i: &'a str,
 ) -> IResult<&'a str, (Kstr<'a>, Option<Kstr<'a>>), E> {
     context("verbose container field name", |i| {
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 094d9fc..8ef205f 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -75,21 +75,28 @@ pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<
     // - A direct mapping (var_name = xxx)
     // - A nested mapping ([var_name])
     // - A sequence or map entry ([[var_name]])
+    //
+    // the last two stand alone on their line, otherwise it is an inline sequence
     let encased = |s, e| {
         preceded::<_, _, _, (), _, _>(
             tag(s),
             terminated(
-                ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
+                terminated(
+                    cntr::verbose_field_name_and_identity,
+                    ignore_inline_whitespace(tag(e)),
+                ),
+                ignore_inline_whitespace(line_ending),
             ),
         )(i)
         .is_ok()
     };
 
     let is = i.starts_with(':');
-    let is = is || i.starts_with("[[");
+    let is = is || encased("[[", "]]");
     let is = is || recognise_field_assign(i);
     let is = is || encased("[", "]");
+    // neither a header nor a sequence: report it as a malformed header
+    let is = is || (i.starts_with("[[") && seq_delimited::<()>(false)(i).is_err());
 
     Ok((orig, is))
 }
-- 
2.43.0


From 46b2a4ea1ff136fecffc77fb7b3c5bea6535adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:08 +0000
Subject: [PATCH 08/15] fix: do not join a word with a bracket on the next line

In a multi-line tuple or sequence, inf or NaN followed by a collection on
the next line was taken for the name of that collection and refused.
---
 src/parse/heuristics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 8ef205f..cfa773e 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -38,7 +38,8 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    // the opening delimiter is on the line of the identity
+    let (i, _) = inline_whitespace(i)?;
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
-- 
2.43.0


From aa3f6adca09140256cd0ab4ec13789af9ee9948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:52 +0000
Subject: [PATCH 09/15] fix: do not trust the length hint of a serialised
 sequence

A wrong length hint made encoding panic with a capacity overflow or abort
for lack of memory.
---
 src/encode/encoder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/encode/encoder.rs b/src/encode/encoder.rs
index 4219d71..4e11936 100644
--- a/src/encode/encoder.rs
+++ b/src/encode/encoder.rs
@@ -174,19 +174,19 @@ impl ser::Serializer for Encoder {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<SeqLike, Error> {
         Ok(SeqLike {
-            kserd: Kserd::new(Value::Seq(Vec::with_capacity(len.unwrap_or_default()))),
+            kserd: Kserd::new(Value::Seq(with_hint(len.unwrap_or_default()))),
         })
     }
 
     fn serialize_tuple(self, len: usize) -> Result<TupleLike, Error> {
         Ok(TupleLike {
-            kserd: Kserd::new(Value::Tuple(Vec::with_capacity(len))),
+            kserd: Kserd::new(Value::Tuple(with_hint(len))),
         })
     }
 
     fn serialize_tuple_struct(self, name: &'static str, len: usize) -> Result<TupleLike, Error> {
         Ok(TupleLike {
-            kserd: Kserd::with_id(name, Value::Tuple(Vec::with_capacity(len)))
+            kserd: Kserd::with_id(name, Value::Tuple(with_hint(len)))
                 .map_err(Error::InvalidId)?,
         })
     }
@@ -199,7 +199,7 @@ impl ser::Serializer for Encoder {
         len: usize,
     ) -> Result<TupleLike, Error> {
         Ok(TupleLike {
-            kserd: Kserd::with_id(variant, Value::Tuple(Vec::with_capacity(len)))
+            kserd: Kserd::with_id(variant, Value::Tuple(with_hint(len)))
                 .map_err(Error::InvalidId)?,
         })
     }
@@ -237,6 +237,11 @@ impl ser::Serializer for Encoder {
     }
 }
 
+/// The length is only a hint, so a wrong one should not be able to exhaust memory.
+fn with_hint(len: usize) -> Vec<Kserd<'static>> {
+    Vec::with_capacity(len.min(4096))
+}
+
 /// Kserd serialization error.
 #[derive(Debug, PartialEq, Clone)]
 pub enum Error {
-- 
2.43.0


From 2e783e24e975ebf09aee60dcc04e7e8c56f88b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:20 +0000
Subject: [PATCH 10/15] fix: report floats beyond the 128 bit range instead of
 saturating them

---
 src/ds/num.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 42e92d5..68fedcd 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -143,7 +143,8 @@ impl Number {
                 if x.is_finite() && x >= &0.0 {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    // a cast saturates, 2^128 and above do not fit
+                    if y < 1e-10 && r < 2f64.powi(128) {
                         return Ok(r as u128);
                     }
                 }
@@ -179,7 +180,8 @@ impl Number {
                 if x.is_finite() {
                     let r = x.round();
                     let y = (r - x).abs();
-                    if y < 1e-10 {
+                    // a cast saturates, only [-2^127, 2^127) fits
+                    if y < 1e-10 && r >= -2f64.powi(127) && r < 2f64.powi(127) {
                         return Ok(r as i128);
                     }
                 }
-- 
2.43.0


From 630ff84fa2282bcdf09e091bc61ad73908c598bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:50 +0000
Subject: [PATCH 11/15] fix: read collections whose name starts with 'true' or
 'false'

---
 src/parse/heuristics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index cfa773e..f08a0b4 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,15 +22,15 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
-        return Ok((orig, Nonprim::None));
-    }
-
     let (i, ident_) = opt(ident(true))(orig)?;
     let (i, ident_) = if ident_.is_some() {
         (i, Ident::Prim)
     } else {
         let (i, ident__) = opt(ident(false))(orig)?;
+        if ident__ == Some(Kstr::brwed("true")) || ident__ == Some(Kstr::brwed("false")) {
+            // a boolean, unlike a name which only starts with one
+            return Ok((orig, Nonprim::None));
+        }
         if ident__.is_some() {
             (i, Ident::Nonprim)
         } else {
-- 
2.43.0


From 1a1e163d89bdf8e671acac6499531df7e8115354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:51 +0000
Subject: [PATCH 12/15] fix: read verbose map entries whose key spans several
 lines

Such an entry was taken for a sequence entry, and what followed the key
was lost.
---
 src/parse/cntr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index 4437890..12bbbd4 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -231,7 +231,7 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
 
             // get the key (kserd-inline:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
-- 
2.43.0


From f1172891fba149e202a8de6da8af209ded432cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:02 +0000
Subject: [PATCH 13/15] fix: write nested sequences and maps so that they can
 be read back

A sequence or map that is an entry of a verbose sequence or map is
written in brackets. Containers inside those brackets were still written
verbose, which the parser refuses. They are now at most concise.
---
 src/fmt/formatter.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 2c95aa5..a7fc48b 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -296,7 +296,28 @@ impl<'a, 'k> Formatter<'a, 'k> {
     /// )");
     /// ```
     pub fn write_string(&self, buf: String) -> String {
-        write_node(buf, self.nav.root(), &self.fmts, 0)
+        write_node(buf, self.nav.root(), &self.readable_fmts(), 0)
+    }
+
+    /// Sequences and maps that are not the field of a container are written in brackets.
+    /// Whatever is inside brackets has to be at most concise to be read back.
+    fn readable_fmts(&self) -> Vec<Fmt> {
+        let mut fmts = self.fmts.clone();
+        for node in self.nav.nodes() {
+            let parent = match node.parent() {
+                Some(parent) => parent,
+                None => continue,
+            };
+            let bracketed = match (parent.value(), node.value()) {
+                (NodeValue::Cntr(_), _) | (_, NodeValue::Cntr(_)) => false,
+                _ => true,
+            };
+            if bracketed || fmts[parent.index()].line < Repr::Verbose {
+                let line = &mut fmts[node.index()].line;
+                *line = std::cmp::min(*line, Repr::Concise);
+            }
+        }
+        fmts
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-- 
2.43.0


From c7f0a9c399410f580614fe645ed82a250f0f9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:11 +0000
Subject: [PATCH 14/15] fix: indent the entries of a verbose map in a nested
 container

They were written without an indent and so belonged to the outermost
container when read back.
---
 src/fmt/maps.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..a59df7b 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,11 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
+                write_indent(&mut buf, col);
                 buf.push_str("[[");
                 buf.push_str(field_name);
                 buf.push_str("]]\n");
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
-- 
2.43.0


From 9761c5cb8b20a3915e3b9127950c9284c3f86886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 15/15] fix: keep short sequences in a verbose sequence from
 reading as headers

An entry like [true] or [] was written on a line of its own, where it
reads as the header of a nested container.
---
 src/fmt/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index a7fc48b..0bcb0ff 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -316,6 +316,12 @@ impl<'a, 'k> Formatter<'a, 'k> {
                 let line = &mut fmts[node.index()].line;
                 *line = std::cmp::min(*line, Repr::Concise);
             }
+            if let (NodeValue::Seq(_), NodeValue::Seq(seq)) = (parent.value(), node.value()) {
+                if seq.len() < 2 && fmts[parent.index()].line == Repr::Verbose {
+                    // on a line of its own `[true]` would read as a header
+                    fmts[node.index()].line = Repr::Concise;
+                }
+            }
         }
         fmts
     }
-- 
2.43.0

