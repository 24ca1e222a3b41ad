From 92f5875fbb96eabea11720ba514070ec60397826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:45 +0000
Subject: [PATCH 1/5] fix: reject a second minus sign in operand strings

"--5" was accepted with n = -5 and i = 0; n is an absolute value.
---
 intl_pluralrules/src/operands.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..ab6a8dd 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -81,6 +81,9 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
         };
 
         let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
+        if absolute_value.is_sign_negative() {
+            return Err("Incorrect number passed!");
+        }
 
         let integer_digits;
         let num_fraction_digits0;
-- 
2.43.0


From 0e88f0d0f1033f4d3e26ff9c607f9616c283668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:45 +0000
Subject: [PATCH 2/5] fix: keep integer operand strings above 2^53 exact

"9007199254740993" gave i = 9007199254740992 because i was read back from
the f64.
---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index ab6a8dd..3989137 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -106,7 +106,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // Going through f64 would round integers above 2^53.
+            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From 704c3c953a2a90e54fb60b12f8d391584957cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 3/5] fix: apply the modulus of a within relation to its own
 operand

"f % 10 within 1..2" generated code testing po.i % 10.
---
 make_pluralrules/src/parser/gen_pr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..9c36312 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -101,7 +101,7 @@ fn create_relation(rel: Relation) -> TokenStream {
                 if !mod_check {
                     quote!(po.#l)
                 } else {
-                    quote!(po.i % #m)
+                    quote!(po.#l % #m)
                 },
             )
         };
-- 
2.43.0


From ce02fda50eb720cecfe7e6215067e315885fdb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 4/5] fix: keep the samples of rules without a condition

Rules such as " @integer 2~17, 100" parsed with samples = None: the empty
condition swallowed the rest of the input.
---
 cldr_pluralrules_parser/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..cff1ec5 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -179,7 +179,7 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     }
 
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i.trim_start(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From cfaad23d6a4142062f073ce2d82710cfa35ee538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:40 +0000
Subject: [PATCH 5/5] fix: require at least one value in a plural rule relation

---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index cff1ec5..6ae3ea1 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0

