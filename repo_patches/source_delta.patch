From 2ea679be0e1ea0aa2bfcfec5e38bca32ca0f7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 01/11] fix: report malformed input following the top module's
 header

Parsing a circuit stopped at the first module with the top module's name.
As a module ends where no further statement could be parsed, a malformed
or truncated statement in the top module as well as everything following
it was dropped silently. Drive the consumer to the end of the input such
that leftover input is reported as an error.
---
 src/circuit/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/circuit/parsers.rs b/src/circuit/parsers.rs
index 432f430..d0c2ce1 100644
--- a/src/circuit/parsers.rs
+++ b/src/circuit/parsers.rs
@@ -16,7 +16,11 @@ use super::{Circuit, ModuleConsumer};
 
 /// Parse a [Circuit]
 pub fn circuit(input: &str) -> Result<Circuit, ParseError> {
-    consumer(input)?.into_circuit()
+    let mut consumer = consumer(input)?;
+
+    // The circuit is only valid if the input could be parsed to its very end
+    consumer.try_for_each(|m| m.map(|_| ()))?;
+    consumer.into_circuit()
 }
 
 
-- 
2.43.0


From 2a90d23b1bafa123000059cc3663cdaf5982b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 02/11] fix: format the info attribute of "is invalid"
 statements

---
 src/stmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..497681d 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,7 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From 3de9b066b510ac823d5da76e6f4caf87866c876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 03/11] fix: reject printf statements with too few arguments

Format specifiers without a matching argument were dropped silently,
altering the message.
---
 src/stmt/parsers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..1167e3b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,6 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
+use nom::error::{ErrorKind, ParseError};
 use nom::multi::{many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -17,7 +18,7 @@ use crate::indentation::Indentation;
 use crate::info::{WithInfo, parse as info};
 use crate::memory::parsers::{memory, register, simple_mem, simple_mem_port};
 use crate::module::parsers::instance;
-use crate::parsers::{IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
+use crate::parsers::{Error, IResult, comma, decimal, identifier, kw, le, lp, op, rp, spaced};
 use crate::types::parsers::r#type;
 
 use super::{context::Context, print};
@@ -120,11 +121,13 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    ps.map(|ps| (i, ps))
+                        .ok_or_else(|| nom::Err::Error(Error::from_error_kind(i, ErrorKind::Count)))
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From 0fffb4aa80eaaf02b1548c1f602b76bc9b227d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 04/11] fix: accept printf statements with an empty format
 string

Such statements are formatted as `printf(.., "")` but could not be parsed.
---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 1167e3b..a459369 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -10,7 +10,7 @@ use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
 use nom::error::{ErrorKind, ParseError};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -117,7 +117,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From b8649f74c1c330ac0e0096ffb55fafadf9f163d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 05/11] fix: format integral double parameters with a decimal
 point

Such values were formatted as integers, i.e. reading them back would yield
an integer parameter or, if out of range, an error.
---
 src/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module.rs b/src/module.rs
index b221804..0b8bed7 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,6 +308,8 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
+            // Without a point, the value would read as an integer
+            Self::Double(v) if v.fract() == 0.0 => write!(f, "{:.1}", v),
             Self::Double(v) => fmt::Display::fmt(v, f),
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
-- 
2.43.0


From 7a8aad25a62d527d3e83798a4fb3a6c946166515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 06/11] fix: format extmodule parameters in a stable order

Parameters were formatted in the order in which the map yields them, which
differs between equal circuits and between runs.
---
 src/module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/module.rs b/src/module.rs
index 0b8bed7..135caa9 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -110,8 +110,12 @@ impl DisplayIndented for Module {
                 .try_for_each(|s| DisplayIndented::fmt(s, &mut indentation, f)),
             Kind::External{defname, params} => {
                 defname.as_ref().map(|n| writeln!(f, "{}defname = {}", indentation.lock(), n)).transpose()?;
+
+                // The output must not depend on the map's iteration order
+                let mut params: Vec<_> = params.iter().collect();
+                params.sort_unstable_by_key(|(k, _)| *k);
                 params
-                    .iter()
+                    .into_iter()
                     .try_for_each(|(k, v)| writeln!(f, "{}parameter {} = {}", indentation.lock(), k, v))
             },
         }
-- 
2.43.0


From ef9575318663b6521d8a71536db753294a361b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 07/11] fix: accept bundle fields named "flip"

A field `flip: UInt` was parsed as a flipped field with an empty name.
---
 src/types/parsers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..bed73f9 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -6,10 +6,10 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::combinator::{map, opt, value};
+use nom::combinator::{map, not, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -44,8 +44,11 @@ pub fn bitwidth(input: &str) -> IResult<super::BitWidth> {
 pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
+    // A field may be named "flip", i.e. it's a modifier only if a name follows
+    let flip = |i| terminated(kw("flip"), not(spaced(op(":"))))(i);
+
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((opt(flip), spaced(field_name), spaced(op(":")), spaced(r#type))),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
-- 
2.43.0


From ab8b79f4a03ca61a24051649494e5459513e551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 08/11] fix: report literals which are too wide instead of
 panicking

Parsing a literal without explicit width panicked if the width required
for the value could not be represented.
---
 src/expr/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..be6c9e4 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,23 +26,17 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| width
+                .or_else(|| value.bits().try_into().ok())
+                .map(|width| E::UIntLiteral{value, width})
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
-                let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
+                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .map(|width| E::SIntLiteral{value, width})
         ),
         map(
             tuple((kw("mux"), lp, &sub, comma, &sub, comma, &sub, rp)),
-- 
2.43.0


From 137b737cba55b2c4c22b01542ecdaec1612da05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 09/11] fix: accept statements starting with a reference named
 "else" after a when

Such a statement was taken for a malformed else branch.
---
 src/stmt/parsers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index a459369..08b5b61 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
-use nom::combinator::{iterator, map, opt, value, verify};
+use nom::combinator::{iterator, map, opt, peek, value, verify};
 use nom::error::{ErrorKind, ParseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
@@ -169,7 +169,13 @@ fn indented_condition<'i>(
 
     let (input, when) = stmts(ctx.sub(), input, &mut indentation.sub())?;
 
-    let (input, r#else) = if let Ok((i, _)) = tuple((indentation.clone().parser(), kw("else")))(input) {
+    // A statement may start with a reference named "else"
+    let else_follows = peek(spaced(alt((op(":"), kw("when")))));
+    let (input, r#else) = if let Ok((i, _)) = tuple((
+        indentation.clone().parser(),
+        kw("else"),
+        else_follows,
+    ))(input) {
         if let Ok((i, _)) = tuple((spaced(op(":")), info, le))(i) {
             stmts(ctx.sub(), i, &mut indentation.sub())
         } else {
-- 
2.43.0


From 9b766d509dc87c213e5d662b32568ae56043f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 10/11] fix: reject empty identifiers and field names

---
 src/parsers.rs       | 4 ++--
 src/types/parsers.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index bed73f9..cae15db 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,7 +5,7 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
+use nom::bytes::complete::take_while1;
 use nom::combinator::{map, not, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
@@ -73,6 +73,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From 3e44546f27ec20a8c1ee93d3194261a907de1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 11/11] fix: report errors beyond column 65535 instead of
 panicking

The caret in nom's message is positioned using a formatting width, which is
limited to u16::MAX.
---
 src/error.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 2dcfdde..1fdc1d5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -59,7 +59,36 @@ pub(crate) fn convert_error(input: &str, err: nom::Err<parsers::Error>) -> Parse
 
     match err {
         nom::Err::Incomplete(_) => io::ErrorKind::UnexpectedEof.into(),
-        nom::Err::Error(e) | nom::Err::Failure(e) => convert_error(input, e).into(),
+        nom::Err::Error(e) | nom::Err::Failure(e) if e.errors.iter().all(|(s, _)| has_caret(input, s))
+            => convert_error(input, e).into(),
+        nom::Err::Error(e) | nom::Err::Failure(e) => e
+            .errors
+            .into_iter()
+            .enumerate()
+            .map(|(n, (s, kind))| {
+                let (line, column) = position(input, s);
+                format!("{}: at line {}, column {}: {:?}\n\n", n, line, column, kind)
+            })
+            .collect::<String>()
+            .into(),
     }
 }
 
+/// Check whether a caret can be placed below the beginning of the given rest of the input
+///
+/// A width in a formatting argument, which is what `nom` uses for positioning the caret, must not
+/// exceed `u16::MAX`.
+fn has_caret(input: &str, rest: &str) -> bool {
+    position(input, rest).1 <= u16::MAX.into()
+}
+
+/// Compute the line and column, starting with one, at which the given rest of the input begins
+fn position(input: &str, rest: &str) -> (usize, usize) {
+    use nom::Offset;
+
+    let prefix = &input.as_bytes()[..input.offset(rest)];
+    let line_begin = prefix.iter().rposition(|b| *b == b'\n').map(|p| p + 1).unwrap_or(0);
+    let line = prefix.iter().filter(|b| **b == b'\n').count() + 1;
+    (line, prefix.len() - line_begin + 1)
+}
+
-- 
2.43.0

