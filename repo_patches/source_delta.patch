From 943cd892181a7f63bfb517586bf931dbeba2f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 01/29] fix: use the complete one_of parser so truncated
 unicode escapes do not panic

---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From 9cb9486f940d05fe336a64ecbf38daf02b38f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 02/29] fix: accept lower case hex digits in high surrogate
 escapes

---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From fb940ee583f92fbf496a8bd037b8f97b0e89d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 03/29] fix: print the negation of negated function expressions

---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a81b831..9403813 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
         }
     }
 }
-- 
2.43.0


From 46a90bda86314f70f05d2175263c83f0ce7c6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 04/29] fix: print descendant shorthand segments with two dots

---
 serde_json_path_core/src/spec/segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 20e036e..4338e82 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,7 +29,11 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            write!(f, "..")?;
+            // the dot of the shorthand forms is part of the `..`
+            write!(f, ".")?;
+            if self.segment.as_long_hand().is_some() {
+                write!(f, ".")?;
+            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From e6e954481c0f191f8a8e436e1412aa86bcd81767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 05/29] fix: escape member names in normalized path strings

---
 serde_json_path_core/src/path.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..b2970c3 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,7 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => write!(f, "[{}]", SingleQuoted(name))?,
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -209,6 +209,31 @@ impl Serialize for NormalizedPath<'_> {
     }
 }
 
+/// Formats a string as a single-quoted name, escaped as in a [Normalized Path][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
+pub(crate) struct SingleQuoted<'a>(pub(crate) &'a str);
+
+impl Display for SingleQuoted<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "'")?;
+        for c in self.0.chars() {
+            match c {
+                '\u{0008}' => write!(f, "\\b")?,
+                '\u{000C}' => write!(f, "\\f")?,
+                '\u{000A}' => write!(f, "\\n")?,
+                '\u{000D}' => write!(f, "\\r")?,
+                '\u{0009}' => write!(f, "\\t")?,
+                '\'' => write!(f, "\\'")?,
+                '\\' => write!(f, "\\\\")?,
+                '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", u32::from(c))?,
+                _ => write!(f, "{c}")?,
+            }
+        }
+        write!(f, "'")
+    }
+}
+
 /// An element within a [`NormalizedPath`]
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum PathElement<'a> {
-- 
2.43.0


From e7249ceec749c13111e9ae2327114a40fbe50559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 06/29] fix: escape quoted names and string literals when
 printing a query

---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 9403813..2b51171 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::NormalizedPath,
+    path::{NormalizedPath, SingleQuoted},
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -472,7 +472,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "'{s}'"),
+            Literal::String(s) => write!(f, "{s}", s = SingleQuoted(s)),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 758ef66..92303ff 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,7 +1,11 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
+use crate::{
+    node::LocatedNode,
+    path::{NormalizedPath, SingleQuoted},
+    spec::query::Queryable,
+};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -16,7 +20,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.0)
+        write!(f, "{name}", name = SingleQuoted(&self.0))
     }
 }
 
-- 
2.43.0


From 68c360e05d75f48727168766feff0878383680c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 07/29] fix: escape the control characters U+0010 to U+001F in
 path elements

---
 serde_json_path_core/src/path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index b2970c3..bc1f761 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -333,6 +333,7 @@ impl Display for PathElement<'_> {
                             // "00"-"07", "0b", "0e"-"0f"
                             write!(f, "\\u000{:x}", c as i32)?
                         }
+                        ('\x10'..='\x1f') => write!(f, "\\u00{:x}", c as i32)?, // "10"-"1f"
                         _ => write!(f, "{c}")?,
                     }
                 }
-- 
2.43.0


From 888cdadc2ad4bbc704a6bd9d9c48c464bf90d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 08/29] fix: support negative indices in singular queries

---
 serde_json_path_core/src/spec/selector/filter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 2b51171..1953650 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,10 +561,16 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target
-                        .as_array()
-                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
-                    {
+                    if let Some(t) = target.as_array().and_then(|l| {
+                        let i = if index.0 < 0 {
+                            usize::try_from(index.0.abs())
+                                .ok()
+                                .and_then(|i| l.len().checked_sub(i))
+                        } else {
+                            usize::try_from(index.0).ok()
+                        };
+                        i.and_then(|i| l.get(i))
+                    }) {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 8d8b6906b3785cdad01a05caca123d37e7b18951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 09/29] fix: derive <=, > and >= from < and == as the
 specification does

---
 serde_json_path_core/src/spec/selector/filter.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 1953650..fbfdb5a 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -335,16 +335,13 @@ impl TestFilter for ComparisonExpr {
                 check_same_type(&left, &right) && check_less_than(&left, &right)
             }
             ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right)
-                    && !check_less_than(&left, &right)
-                    && !check_equal_to(&left, &right)
+                check_same_type(&left, &right) && check_less_than(&right, &left)
             }
             ComparisonOperator::LessThanEqualTo => {
-                check_same_type(&left, &right)
-                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
+                check_less_than(&left, &right) || check_equal_to(&left, &right)
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_same_type(&left, &right) && !check_less_than(&left, &right)
+                check_less_than(&right, &left) || check_equal_to(&left, &right)
             }
         }
     }
-- 
2.43.0


From a3b75645736a49a0d1199e87133880759df55f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 10/29] fix: compare numbers inside arrays and objects by value

---
 serde_json_path_core/src/spec/selector/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index fbfdb5a..482390f 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,6 +258,14 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
+        }
         _ => left == right,
     }
 }
-- 
2.43.0


From f9c52b54a731a5053d11b7fa0b880817b645b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 11/29] fix: allow function names of a single character

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 713c0d87853343ac6432df13a760fd3650714f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 12/29] fix: allow whitespace before descendant segments

---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 2830c65a9b16e3a46da1899480a543a7e4cd6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 13/29] fix: parse logical expressions as function arguments

---
 .../src/parser/selector/function/mod.rs       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..e0dac88 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
-use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::character::complete::{char, one_of};
+use nom::combinator::{cut, map_res, peek};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -55,11 +55,22 @@ fn parse_function_name(input: &str) -> PResult<String> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    // Only a logical expression can continue past a literal, query, or function expression:
+    let end = || peek(preceded(multispace0, one_of(",)")));
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
+        map(terminated(parse_literal, end()), FunctionExprArg::Literal),
+        map(
+            terminated(parse_singular_path, end()),
+            FunctionExprArg::SingularQuery,
+        ),
+        map(terminated(parse_query, end()), FunctionExprArg::FilterQuery),
+        map(
+            preceded(
+                peek(pair(parse_function_name, char('('))),
+                terminated(parse_function_expr, end()),
+            ),
+            FunctionExprArg::FunctionExpr,
+        ),
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
 }
-- 
2.43.0


From d054925786fdf5143dd6608151d54e47ba3e12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 14/29] fix: do not read the start of a function name as a
 literal

---
 serde_json_path/src/parser/primitive/mod.rs | 27 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/mod.rs b/serde_json_path/src/parser/primitive/mod.rs
index 01a0c90..f53f317 100644
--- a/serde_json_path/src/parser/primitive/mod.rs
+++ b/serde_json_path/src/parser/primitive/mod.rs
@@ -1,4 +1,10 @@
-use nom::{branch::alt, bytes::complete::tag, combinator::value};
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::satisfy,
+    combinator::{not, value},
+    sequence::terminated,
+};
 
 use super::PResult;
 
@@ -6,14 +12,27 @@ pub(crate) mod int;
 pub(crate) mod number;
 pub(crate) mod string;
 
+/// Parse a keyword that is not merely the start of a longer function name
+fn keyword<'a, T: Clone>(word: &'static str, val: T) -> impl FnMut(&'a str) -> PResult<'a, T> {
+    value(
+        val,
+        terminated(
+            tag(word),
+            not(satisfy(|c| {
+                c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_'
+            })),
+        ),
+    )
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_null(input: &str) -> PResult<()> {
-    value((), tag("null"))(input)
+    keyword("null", ())(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_bool(input: &str) -> PResult<bool> {
-    let parse_true = value(true, tag("true"));
-    let parse_false = value(false, tag("false"));
+    let parse_true = keyword("true", true);
+    let parse_false = keyword("false", false);
     alt((parse_true, parse_false))(input)
 }
-- 
2.43.0


From 5dbe3a4d1d78c3397bdf47b6774febf898913669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 15/29] fix: report expected and received argument counts the
 right way round

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From 0423127333ef52b7d1c4780376c3c2f25e3b5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 16/29] fix: name the right source type when a logical is
 converted to a value

---
 serde_json_path_core/src/spec/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index 326e5fa..aab05bd 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -380,7 +380,7 @@ impl<'a> TryFrom<JsonPathValue<'a>> for ValueType<'a> {
                 to: JsonPathType::Value,
             }),
             JsonPathValue::Logical(_) => Err(ConversionError::IncompatibleTypes {
-                from: JsonPathType::Nodes,
+                from: JsonPathType::Logical,
                 to: JsonPathType::Value,
             }),
         }
-- 
2.43.0


From c92c94b37acba392cd8c7fca1468b34332284a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 17/29] fix: build serde_json_path_core without the functions
 feature

---
 serde_json_path_core/src/spec/functions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index aab05bd..4d75801 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -518,10 +518,12 @@ impl FunctionExpr<Validated> {
 }
 
 impl FunctionExpr<NotValidated> {
+    #[cfg_attr(not(feature = "functions"), allow(unused_variables))]
     pub fn validate(
         name: String,
         args: Vec<FunctionExprArg>,
     ) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
+        #[cfg(feature = "functions")]
         for f in inventory::iter::<Function> {
             if f.name == name {
                 (f.validator)(args.as_slice())?;
@@ -613,6 +615,7 @@ impl FunctionExprArg {
             }
             FunctionExprArg::LogicalExpr(_) => Ok(FunctionArgType::Logical),
             FunctionExprArg::FunctionExpr(func) => {
+                #[cfg(feature = "functions")]
                 for f in inventory::iter::<Function> {
                     if f.name == func.name.as_str() {
                         return Ok(f.result_type);
-- 
2.43.0


From 78511feaac97d7fd1925a631c76882b0f0db579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 18/29] fix: reject regular expressions that are only valid
 inside the wrapping group

---
 serde_json_path/src/parser/selector/function/registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..f779e1c 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -57,7 +57,9 @@ fn count(nodes: NodesType) -> ValueType {
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
+            // the expression must be valid by itself, not only once it is wrapped in a group
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
@@ -71,7 +73,9 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
+            // the expression must be valid by itself, not only once it is wrapped in a group
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
-- 
2.43.0


From 97fa0abac2fda82224167f9870002881134beb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 19/29] Revert "fix: build serde_json_path_core without the
 functions feature"

This reverts commit c92c94b37acba392cd8c7fca1468b34332284a30.
---
 serde_json_path_core/src/spec/functions.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index 4d75801..aab05bd 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -518,12 +518,10 @@ impl FunctionExpr<Validated> {
 }
 
 impl FunctionExpr<NotValidated> {
-    #[cfg_attr(not(feature = "functions"), allow(unused_variables))]
     pub fn validate(
         name: String,
         args: Vec<FunctionExprArg>,
     ) -> Result<FunctionExpr<Validated>, FunctionValidationError> {
-        #[cfg(feature = "functions")]
         for f in inventory::iter::<Function> {
             if f.name == name {
                 (f.validator)(args.as_slice())?;
@@ -615,7 +613,6 @@ impl FunctionExprArg {
             }
             FunctionExprArg::LogicalExpr(_) => Ok(FunctionArgType::Logical),
             FunctionExprArg::FunctionExpr(func) => {
-                #[cfg(feature = "functions")]
                 for f in inventory::iter::<Function> {
                     if f.name == func.name.as_str() {
                         return Ok(f.result_type);
-- 
2.43.0


From 97bc2a602c0184b6df2203db1c34e82f843f4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 20/29] Revert "fix: name the right source type when a logical
 is converted to a value"

This reverts commit 0423127333ef52b7d1c4780376c3c2f25e3b5080.
---
 serde_json_path_core/src/spec/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/functions.rs b/serde_json_path_core/src/spec/functions.rs
index aab05bd..326e5fa 100644
--- a/serde_json_path_core/src/spec/functions.rs
+++ b/serde_json_path_core/src/spec/functions.rs
@@ -380,7 +380,7 @@ impl<'a> TryFrom<JsonPathValue<'a>> for ValueType<'a> {
                 to: JsonPathType::Value,
             }),
             JsonPathValue::Logical(_) => Err(ConversionError::IncompatibleTypes {
-                from: JsonPathType::Logical,
+                from: JsonPathType::Nodes,
                 to: JsonPathType::Value,
             }),
         }
-- 
2.43.0


From 0916243527846725a40d99a5bbc19ad5a75a7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 21/29] Revert "fix: compare numbers inside arrays and objects
 by value"

This reverts commit a3b75645736a49a0d1199e87133880759df55f86.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 482390f..fbfdb5a 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,14 +258,6 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
-        (Value::Array(l), Value::Array(r)) => {
-            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| value_equal_to(l, r))
-        }
-        (Value::Object(l), Value::Object(r)) => {
-            l.len() == r.len()
-                && l.iter()
-                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
-        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 03ef18a6af3e087d30b43fe8efa76becbf2f8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 22/29] Revert "fix: derive <=, > and >= from < and == as the
 specification does"

This reverts commit 8d8b6906b3785cdad01a05caca123d37e7b18951.
---
 serde_json_path_core/src/spec/selector/filter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index fbfdb5a..1953650 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -335,13 +335,16 @@ impl TestFilter for ComparisonExpr {
                 check_same_type(&left, &right) && check_less_than(&left, &right)
             }
             ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right) && check_less_than(&right, &left)
+                check_same_type(&left, &right)
+                    && !check_less_than(&left, &right)
+                    && !check_equal_to(&left, &right)
             }
             ComparisonOperator::LessThanEqualTo => {
-                check_less_than(&left, &right) || check_equal_to(&left, &right)
+                check_same_type(&left, &right)
+                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_less_than(&right, &left) || check_equal_to(&left, &right)
+                check_same_type(&left, &right) && !check_less_than(&left, &right)
             }
         }
     }
-- 
2.43.0


From d0320a4ca2c33bfa86d3c3268d8e601d371c4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 23/29] Revert "fix: support negative indices in singular
 queries"

This reverts commit 888cdadc2ad4bbc704a6bd9d9c48c464bf90d5f0.
---
 serde_json_path_core/src/spec/selector/filter.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 1953650..2b51171 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,16 +561,10 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target.as_array().and_then(|l| {
-                        let i = if index.0 < 0 {
-                            usize::try_from(index.0.abs())
-                                .ok()
-                                .and_then(|i| l.len().checked_sub(i))
-                        } else {
-                            usize::try_from(index.0).ok()
-                        };
-                        i.and_then(|i| l.get(i))
-                    }) {
+                    if let Some(t) = target
+                        .as_array()
+                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
+                    {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 7cc25ad40fd77ae3052dccaf30dde66866229330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 24/29] Revert "fix: escape quoted names and string literals
 when printing a query"

This reverts commit e7249ceec749c13111e9ae2327114a40fbe50559.
---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 2b51171..9403813 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::{NormalizedPath, SingleQuoted},
+    path::NormalizedPath,
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -472,7 +472,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "{s}", s = SingleQuoted(s)),
+            Literal::String(s) => write!(f, "'{s}'"),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 92303ff..758ef66 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,11 +1,7 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{
-    node::LocatedNode,
-    path::{NormalizedPath, SingleQuoted},
-    spec::query::Queryable,
-};
+use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -20,7 +16,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{name}", name = SingleQuoted(&self.0))
+        write!(f, "'{name}'", name = self.0)
     }
 }
 
-- 
2.43.0


From c228617994173e2437f5f9e346c4343198c8b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 25/29] Revert "fix: print descendant shorthand segments with
 two dots"

This reverts commit 46a90bda86314f70f05d2175263c83f0ce7c6434.
---
 serde_json_path_core/src/spec/segment.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 4338e82..20e036e 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,11 +29,7 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            // the dot of the shorthand forms is part of the `..`
-            write!(f, ".")?;
-            if self.segment.as_long_hand().is_some() {
-                write!(f, ".")?;
-            }
+            write!(f, "..")?;
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From 71a816b77cf8c9c0bee5f5dcabeb339049c15c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 26/29] Revert "fix: print the negation of negated function
 expressions"

This reverts commit fb940ee583f92fbf496a8bd037b8f97b0e89d099.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 9403813..a81b831 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
         }
     }
 }
-- 
2.43.0


From e75adfbf4f7976a521bb52a07aac328536b3d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/29] fix: keep names in generated evaluators from clashing
 with those of custom functions

---
 .../src/internal/common/define.rs             | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 8dd5f06..ec5306c 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::{ItemFn, LitStr};
 
@@ -88,23 +88,28 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         });
     };
     // Generate the code to declare each individual argument for evaluation, at query time:
-    let arg_declarations = args.iter().map(|arg| {
-        let FnArgument { ident, ty } = arg;
+    // (hygienic identifiers, so that they do not clash with names used in the function)
+    let v = Ident::new("v", Span::mixed_site());
+    let arg_names: Vec<Ident> = args
+        .iter()
+        .enumerate()
+        .map(|(idx, FnArgument { ident, ty: _ })| {
+            let span = Span::mixed_site().located_at(ident.span());
+            Ident::new(&format!("arg_{idx}"), span)
+        })
+        .collect();
+    let arg_declarations = args.iter().zip(&arg_names).map(|(arg, ident)| {
+        let FnArgument { ident: _, ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #ident = #ty::try_from(v.pop_front().unwrap()).unwrap();
+            let #ident = #ty::try_from(#v.pop_front().unwrap()).unwrap();
         }
     });
-    // Produce the argument name identifiers:
-    let arg_names = args.iter().map(|arg| {
-        let FnArgument { ident, ty: _ } = arg;
-        ident
-    });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut v: std::collections::VecDeque<#core::JsonPathValue>| {
+            std::boxed::Box::new(|mut #v: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
                 return #name(#(#arg_names,)*).into()
             })
-- 
2.43.0


From 27d0f70fe0380f3bfbfa654d80fb84cf21830dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 28/29] fix: accept calls of functions without arguments

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index e0dac88..c785d0c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::{char, one_of};
-use nom::combinator::{cut, map_res, peek};
+use nom::combinator::{cut, map_res, not, peek};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -55,6 +55,8 @@ fn parse_function_name(input: &str) -> PResult<String> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    // A call may have no arguments at all, so their absence is not an error by itself:
+    not(char(')'))(input)?;
     // Only a logical expression can continue past a literal, query, or function expression:
     let end = || peek(preceded(multispace0, one_of(",)")));
     alt((
-- 
2.43.0


From 148fd69fa3dd5413b66bf2bcdb33dea6144c3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:25 +0000
Subject: [PATCH 29/29] fix: custom functions named by raw identifiers

The function attribute panicked on functions like r#type, as the names of the
generated statics were no identifiers; such a function is registered under its name.
---
 serde_json_path_macros/src/internal/common/define.rs |  5 +++--
 .../src/internal/common/extract.rs                   | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index ec5306c..34b7a3c 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
-use syn::{ItemFn, LitStr};
+use syn::{ext::IdentExt, ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
 
@@ -40,7 +40,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         Err(e) => return Err(e.into_compile_error()),
     };
     // Stringified name of the function:
-    let name_str = name_str.unwrap_or_else(|| LitStr::new(name.to_string().as_str(), name.span()));
+    let name_str =
+        name_str.unwrap_or_else(|| LitStr::new(name.unraw().to_string().as_str(), name.span()));
     // The number of arguments the function accepts:
     let args_len = args.len();
     // Generate token streams for some needed types:
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 1e6344f..2e2ce47 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -3,8 +3,8 @@ use std::collections::VecDeque;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
-    punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics, Pat, PatType,
-    Path, Result, ReturnType, Signature, Type,
+    ext::IdentExt, punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics,
+    Pat, PatType, Path, Result, ReturnType, Signature, Type,
 };
 
 pub struct Components {
@@ -133,11 +133,15 @@ pub fn extract_components(input: Signature) -> Result<Components> {
 
     let args = args?;
     let validator_name = Ident::new(
-        format!("{name}_validator").to_uppercase().as_str(),
+        format!("{}_validator", name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
     let evaluator_name = Ident::new(
-        format!("{name}_evaluator").to_uppercase().as_str(),
+        format!("{}_evaluator", name.unraw())
+            .to_uppercase()
+            .as_str(),
         name.span(),
     );
 
-- 
2.43.0

