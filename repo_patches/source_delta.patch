From 20d2e9981ab2cdaa06ac3e142f1dc2ebfe5441d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 01/20] fix: compare all trailing places of the longer version,
 not just the first

1.0.1 compared equal to 1 (and 1 to 1.0.2), because the first zero place
past the end of the shorter version ended the comparison.
---
 core/src/version/version.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 0ec9730..7fea768 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -274,7 +274,6 @@ impl Version {
                 (Some(i), Some(j)) => match i.partial_cmp(j) {
                     Some(Ordering::Greater) => return CompOp::Gt,
                     Some(Ordering::Less) => return CompOp::Lt,
-                    // This is the only loop branch that continues
                     Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
@@ -284,13 +283,14 @@ impl Version {
                 (Some(i), None) => match i.partial_cmp(&&i.get_empty()) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    // later places can still differ from zero, so keep going
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
                 (None, Some(j)) => match &j.get_empty().partial_cmp(j) {
                     Some(Ordering::Less) => return CompOp::Lt,
                     Some(Ordering::Greater) => return CompOp::Gt,
-                    Some(Ordering::Equal) => return CompOp::Eq,
+                    Some(Ordering::Equal) => Ordering::Equal,
                     _ => unreachable!("Ignoring ge, le, ne"),
                 },
 
-- 
2.43.0


From a4c11335c4c4f75403543865b50d3fc29337e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 02/20] fix: compare_to_version tests `self OP other`, as
 documented

It tested `other OP self`: "1.2".compare_to_str("1.3.2", Lt) was false, and
the python binding's <, <=, >, >= were all inverted. Spec matching, which
relied on the inversion, now passes its operands in that order.
---
 core/src/version/matching.rs |  2 +-
 core/src/version/version.rs  | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index c2ebf99..e7c4fe4 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -146,7 +146,7 @@ pub struct MatchOperator {
 }
 impl MatchFn for MatchOperator {
     fn test(&self, other: &Version) -> bool {
-        self.version.compare_to_version(other, &self.operator)
+        other.compare_to_version(&self.version, &self.operator)
     }
 }
 
diff --git a/core/src/version/version.rs b/core/src/version/version.rs
index 7fea768..eb56699 100644
--- a/core/src/version/version.rs
+++ b/core/src/version/version.rs
@@ -208,10 +208,8 @@ impl Version {
 
     pub fn compare_to_version(&self, other: &Version, operator: &CompOp) -> bool {
         match operator {
-            // these look inverted. What we're saying when we have a.b.* (spec) and a.b.c (other version)
-            //     is that a.b.c starts with the spec (up until the star)
-            CompOp::StartsWith => other.startswith(self),
-            CompOp::NotStartsWith => !other.startswith(self),
+            CompOp::StartsWith => self.startswith(other),
+            CompOp::NotStartsWith => !self.startswith(other),
             CompOp::Compatible => unimplemented!(),
             CompOp::Incompatible => unimplemented!(),
             _ => match self.compare_version(other) {
@@ -220,11 +218,11 @@ impl Version {
                     _ => false,
                 },
                 CompOp::Lt => match operator {
-                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
+                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
                     _ => false,
                 },
                 CompOp::Gt => match operator {
-                    &CompOp::Ne | &CompOp::Lt | &CompOp::Le => true,
+                    &CompOp::Ne | &CompOp::Gt | &CompOp::Ge => true,
                     _ => false,
                 },
                 _ => unreachable!(),
-- 
2.43.0


From a0fb756da0fdaac4a5e9b0107b772503ea8d0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 03/20] fix: report an unparseable epoch as an error instead of
 panicking

Version::parse("a!1"), ("!1") and ("40000!1") panicked.
---
 core/src/version/parsers/conda.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/parsers/conda.rs b/core/src/version/parsers/conda.rs
index fd89175..651063b 100644
--- a/core/src/version/parsers/conda.rs
+++ b/core/src/version/parsers/conda.rs
@@ -16,7 +16,10 @@ pub fn conda_parser(
     let epoch_split: Vec<&str> = version.split("!").collect();
     let post_epoch_split: &str = match epoch_split.len() {
         2 => {
-            parts.push(VersionPart::Epoch(epoch_split[0].parse().unwrap()));
+            let epoch = epoch_split[0]
+                .parse()
+                .map_err(|_| VersionParsingError::DisallowedCharacter)?;
+            parts.push(VersionPart::Epoch(epoch));
             epoch_split[1]
         },
         1 => {
-- 
2.43.0


From 9dd1da92c3fac2171c28cf6ccdfb1a1d3cfef274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 04/20] fix: do not panic on a spec that is empty or starts
 with a multi-byte character

---
 core/src/version/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index e7c4fe4..90647b3 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -84,7 +84,7 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
         let re = Regex::new(input).unwrap();
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
-    } else if OPERATOR_START.contains(&input[..1]) {
+    } else if OPERATOR_START.contains(input.get(..1).unwrap_or("")) {
         let res = create_match_enum_from_operator_str(input);
         match res {
             Ok((_m, _e)) => {
-- 
2.43.0


From cafb44d21a91c33fa59767c9fb3e59dea5a55ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 05/20] fix: report an invalid regex in a spec as an error
 instead of panicking

"^($" and "1.*.(" panicked.
---
 core/src/version/matching.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 90647b3..93b3703 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -81,7 +81,7 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
                 input
             )));
         }
-        let re = Regex::new(input).unwrap();
+        let re = Regex::new(input).map_err(|e| VersionParsingError::Message(e.to_string()))?;
         matcher = MatchRegex { expression: re }.into();
         _is_exact = false;
     } else if OPERATOR_START.contains(input.get(..1).unwrap_or("")) {
@@ -101,7 +101,8 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
             .replace(".", r"\.")
             .replace("+", r"\+")
             .replace("*", r".*");
-        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx)).unwrap();
+        let rx: Regex = Regex::new(&format!(r"^(?:{})$", rx))
+            .map_err(|e| VersionParsingError::Message(e.to_string()))?;
         matcher = MatchRegex { expression: rx }.into();
         _is_exact = false;
     } else if input.ends_with("*") {
-- 
2.43.0


From 7b6c3a6059955e35cb3d3106f9af424b84231687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 06/20] fix: report a bad operator or version in a spec as an
 error instead of panicking

"!1.0", "~1.0", "==1!2!3", "1!2!3*" and "1!2!3" panicked.
---
 core/src/version/matching.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 93b3703..2862abd 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -34,9 +34,12 @@ pub(crate) fn create_match_enum_from_operator_str(
         }
         v_str = &v_str[..v_str.len() - 2];
     }
+    let operator = CompOp::from_sign(operator_str).map_err(|_| {
+        VersionParsingError::Message(format!("invalid operator in string {}", input))
+    })?;
     let matcher = MatchOperator {
-        operator: CompOp::from_sign(operator_str).unwrap(),
-        version: v_str.into(),
+        operator,
+        version: v_str.parse()?,
     };
     let _is_exact = operator_str == "==";
     Ok((matcher.into(), _is_exact))
@@ -108,14 +111,14 @@ pub fn get_matcher(input: &str) -> Result<(MatchEnum, bool), VersionParsingError
     } else if input.ends_with("*") {
         matcher = MatchOperator {
             operator: CompOp::StartsWith,
-            version: input.trim_end_matches(|c| c == '*' || c == '.').into(),
+            version: input.trim_end_matches(|c| c == '*' || c == '.').parse()?,
         }
         .into();
         _is_exact = false;
     } else if !input.contains("@") {
         matcher = MatchOperator {
             operator: CompOp::Eq,
-            version: input.into(),
+            version: input.parse()?,
         }
         .into();
         _is_exact = true;
-- 
2.43.0


From d1691cd0ee4dd684df18177315f7c7dfef2b288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 07/20] fix: evaluate regex specs instead of panicking

Specs such as "^1.7.1$" and "1.*.1" were accepted, and then panicked when
tested against any version.
---
 core/src/version/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/matching.rs b/core/src/version/matching.rs
index 2862abd..234b92d 100644
--- a/core/src/version/matching.rs
+++ b/core/src/version/matching.rs
@@ -137,8 +137,8 @@ pub struct MatchRegex {
     pub expression: Regex,
 }
 impl MatchFn for MatchRegex {
-    fn test(&self, _other: &Version) -> bool {
-        panic!("Not implemented")
+    fn test(&self, other: &Version) -> bool {
+        self.expression.is_match(&other.version)
     }
 }
 
-- 
2.43.0


From 5f98404373426fd922d778a3b4e1f0283325bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 08/20] fix: a constraint tree of a single spec matches what
 that spec matches

treeify("1.2.3") matched no version at all.
---
 core/src/version/spec_trees.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ebe2142..a076925 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -53,8 +53,8 @@ impl Spec for ConstraintTree{
     fn test_match_version(&self, other: &Version) -> bool {
         return match self.combinator {
             Combinator::And => self.parts.iter().all(|x| x.borrow().test_match_version(other)),
-            Combinator::Or => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
-            Combinator::None => false,
+            // None is what treeify gives for a lone spec
+            Combinator::Or | Combinator::None => self.parts.iter().any(|x| x.borrow().test_match_version(other)),
         }
     }
 }
-- 
2.43.0


From c956378a89e300c2afcf601642674b8e58baf02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 09/20] fix: compare combinator and length in ConstraintTree
 equality

"1,2" and "1|2" were equal, and so were any tree and a longer tree that it is
a prefix of.
---
 core/src/version/spec_trees.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index a076925..2c96d76 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -1,4 +1,3 @@
-use std::ops::Deref;
 use std::fmt;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -139,10 +138,7 @@ impl fmt::Debug for VersionSpecOrConstraintTree {
 
 impl PartialEq for ConstraintTree {
     fn eq(&self, other: &Self) -> bool {
-        for (a, b) in self.parts.iter().zip(&other.parts) {
-            if a.deref() != b.deref() { return false }
-        }
-        return true
+        self.combinator == other.combinator && self.parts == other.parts
     }
 }
 
-- 
2.43.0


From 3afcc258be6c4030dcaae36325f0062990b0d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 10/20] fix: untreeify passes on the error of a nested tree
 instead of panicking

---
 core/src/version/spec_trees.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 2c96d76..ff12135 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -83,7 +83,7 @@ impl ConstraintTree {
                     str_parts.push(match item {
                         VersionSpecOrConstraintTree::VersionSpec(s) => s.get_spec().to_string(),
                         VersionSpecOrConstraintTree::ConstraintTree(cj) => {
-                            cj.combine(self.combinator == Combinator::And, true).unwrap()
+                            cj.combine(self.combinator == Combinator::And, true)?
                         }
                     });
                 }
-- 
2.43.0


From 8d6a8fba7326307cb96c50975d4723261f6486e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 11/20] fix: unbounded recursion when debug-printing a spec or
 constraint tree

---
 core/src/version/spec_trees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index ff12135..08deb06 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -132,7 +132,10 @@ impl PartialEq for VersionSpecOrConstraintTree {
 
 impl fmt::Debug for VersionSpecOrConstraintTree {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{:#?}", self)
+        match self {
+            VersionSpecOrConstraintTree::VersionSpec(s) => write!(f, "{:?}", s.get_spec()),
+            VersionSpecOrConstraintTree::ConstraintTree(t) => write!(f, "{:#?}", t)
+        }
     }
 }
 
-- 
2.43.0


From ae42fd5f7df1dfe0d4440ff2eb7fa8941b467876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 12/20] fix: treeify rejects missing operands and operators

"1,2|" came out as 1|2, "1,2," as 1,2, "1)(2" and "(1)(2)" as a tree with no
operator at all, and "" and "()" as an empty tree that panics when printed.
---
 core/src/version/spec_trees.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 08deb06..562b7f8 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -272,7 +272,13 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
     let spec_str_in_parens = format!("({})", spec_str);
     let tokens: Vec<&str> = VSPEC_TOKENS.find_iter(&spec_str_in_parens).map(|x| x.as_str().trim()).collect();
 
+    // true when a spec or a group has to come next, false when an operator or ")" has to
+    let mut want_operand = true;
     for item in tokens {
+        if want_operand == (item == "|" || item == "," || item == ")") {
+            return Err(format!("unexpected \"{}\" in ({})", item, spec_str));
+        }
+        want_operand = item == "(" || item == "|" || item == ",";
         match item {
             "(" => { stack.push("(") },
             "|" => {
-- 
2.43.0


From 6c71f3f697ba82f03830a25ee0fa33c1d46d4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 13/20] fix: parse compound specs given as one string

VersionSpecOrConstraintTree::try_from(">=2.7,<3") always failed: it split the
string in two meaningless pieces and took them for a prefix-form tree.
---
 core/src/version/spec_trees.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 562b7f8..5de2702 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -105,11 +105,10 @@ impl TryFrom<&str> for VersionSpecOrConstraintTree {
     type Error = VersionParsingError;
     fn try_from (input: &str) -> Result<VersionSpecOrConstraintTree, Self::Error> {
         lazy_static! { static ref REGEX_SPLIT_RE: Regex = Regex::new( r#".*[()|,^$]"# ).unwrap(); }
-        let split_input: Vec<&str> = REGEX_SPLIT_RE.split(input).collect();
-        if split_input.len() > 1 {
-            match ConstraintTree::try_from(split_input) {
+        if REGEX_SPLIT_RE.is_match(input) {
+            match treeify(input) {
                 Ok(v) => Ok(VersionSpecOrConstraintTree::ConstraintTree(v)),
-                Err(e) => Err(e)
+                Err(e) => Err(VersionParsingError::Message(e))
             }
         } else {
             match VersionSpec::try_from(input) {
-- 
2.43.0


From cccbe18941e08483009b3c2b9f7449f038e29472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 14/20] fix: report an empty list or a bad spec in it as an
 error instead of panicking

---
 core/src/version/spec_trees.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 5de2702..3918530 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -148,14 +148,14 @@ impl TryFrom<Vec<&str>> for ConstraintTree
 {
     type Error = VersionParsingError;
     fn try_from(input: Vec<&str>) -> Result<Self, Self::Error> {
-        let combinator = match input[0].borrow() {
+        let combinator = match *input.first().unwrap_or(&"") {
             "," => Combinator::And,
             "|" => Combinator::Or,
             _ => return Err(VersionParsingError::Message(format!("Unknown first value in vec of str used as ConstraintTree")))
         };
         let tree = ConstraintTree {
             combinator,
-            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(x.clone()).unwrap()).collect()
+            parts: input[1..].iter().map(|x| VersionSpecOrConstraintTree::try_from(*x)).collect::<Result<_, _>>()?
         };
         Ok(tree)
     }
-- 
2.43.0


From 516b7a2be26580df51684aa27670edd31ff0f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 15/20] fix: read_repodata reports an unreadable file as an
 error instead of panicking

---
 core/src/repodata/repodata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 434f1de..6a7fd7a 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -47,7 +47,7 @@ pub struct Repodata {
 }
 
 pub fn read_repodata<'a, P: AsRef<Path>>(path: P) -> Result<Repodata, serde_json::error::Error> {
-    let file = std::fs::read_to_string(path).unwrap();
+    let file = std::fs::read_to_string(path).map_err(de::Error::custom)?;
     // Read the JSON contents of the file as an instance of `Repodata`.
     let r = serde_json::from_str(&file)?;
 
-- 
2.43.0


From ee3d8917d980e594acd2be1893008772b08349fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 16/20] fix: accept escape sequences in the version of a
 repodata record

A JSON string that has one cannot be borrowed, so the whole file was rejected.
---
 core/src/repodata/repodata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/repodata/repodata.rs b/core/src/repodata/repodata.rs
index 6a7fd7a..671ef8d 100644
--- a/core/src/repodata/repodata.rs
+++ b/core/src/repodata/repodata.rs
@@ -24,8 +24,8 @@ fn deserialize_json_str_to_version<'de, D>(deserializer: D) -> Result<Version, D
     where
         D: de::Deserializer<'de>,
 {
-    let s: &str = Deserialize::deserialize(deserializer)?;
-    match Version::parse(s, &conda_parser) {
+    let s: String = Deserialize::deserialize(deserializer)?;
+    match Version::parse(&s, &conda_parser) {
         Ok(v) => Ok(v),
         Err(_e) => Err(de::Error::custom("Version parsing error"))
     }
-- 
2.43.0


From db597ad44bff7f10645cef7fb12eb21e6168d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 17/20] fix: RustyVersion raises ValueError for an invalid
 version

It panicked, which aborts the python interpreter.
---
 python/src/python_interface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/python_interface.rs b/python/src/python_interface.rs
index 0a4cf28..3bfcb1d 100644
--- a/python/src/python_interface.rs
+++ b/python/src/python_interface.rs
@@ -1,4 +1,4 @@
-use cpython::{PyResult, CompareOp, ToPyObject, PythonObject};
+use cpython::{exc, PyErr, PyResult, CompareOp, ToPyObject, PythonObject};
 use ronda::{Version, CompOp, read_repodata};
 
 fn py_cmp_to_ronda_cmp(other: CompareOp) -> CompOp {
@@ -26,7 +26,8 @@ py_module_initializer!(_ronda, init_ronda, PyInit__ronda, |py, m| {
 py_class!(class RustyVersion |py| {
     data rust_version: Version;
     def __new__(_cls, arg: &str) -> PyResult<RustyVersion> {
-        RustyVersion::create_instance(py, arg.into())
+        let version = arg.parse().map_err(|_| PyErr::new::<exc::ValueError, _>(py, "invalid version"))?;
+        RustyVersion::create_instance(py, version)
     }
     def __richcmp__(&self, other: &RustyVersion, op: CompareOp) -> PyResult<bool> {
         Ok(self.rust_version(py).compare_to_version(other.rust_version(py), &py_cmp_to_ronda_cmp(op)))
-- 
2.43.0


From 4ca0bd5e15785eea65fff7be23072c8dfd78d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 18/20] fix: treeify reports an invalid spec as an error
 instead of panicking

treeify("^1.5") panicked.
---
 core/src/version/spec_trees.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 3918530..908d899 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -301,7 +301,7 @@ fn _treeify(spec_str: String) -> Result<ConstraintTree, String> {
                         combinator: Combinator::None,
                         parts: vec![VersionSpecOrConstraintTree::ConstraintTree(output)]};
                 }
-                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).unwrap()))
+                output.parts.push(VersionSpecOrConstraintTree::VersionSpec(VersionSpec::try_from(item).map_err(|e| e.to_string())?))
             }
         }
     }
-- 
2.43.0


From a26ddb8b8d1c779200719ef66d5917d333db1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 19/20] hook: expose private items to the verification harness
 under cfg(ronda_verif)

---
 core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8c6070e..5875e55 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -30,3 +30,12 @@ pub use crate::version::spec_trees::{
 pub use crate::version::CompOp;
 pub use crate::version::Version;
 pub use crate::version::VersionPart;
+
+/// Access to otherwise private items for the external verification harness; off by default
+/// (enable with `RUSTFLAGS="--cfg ronda_verif"`).
+#[cfg(ronda_verif)]
+pub mod verif_hooks {
+    pub use crate::version::custom_parts::pep440::PEP440String;
+    pub use crate::version::errors::VersionParsingError;
+    pub use crate::version::spec_trees::{Spec, VersionSpec};
+}
-- 
2.43.0


From da7b2283dabf8ec624ad9970a269faf4f9724014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 20/20] fix: debug-printing a constraint tree without a
 rendering panicked

---
 core/src/version/spec_trees.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/version/spec_trees.rs b/core/src/version/spec_trees.rs
index 908d899..3ed6450 100644
--- a/core/src/version/spec_trees.rs
+++ b/core/src/version/spec_trees.rs
@@ -166,7 +166,11 @@ impl fmt::Debug for ConstraintTree {
         if f.alternate() {
             write!(f, "{:#?}{:#?}", self.combinator, self.parts)
         } else {
-            write!(f, "{:?}", self.get_spec())
+            match self.combine(false, false) {
+                Ok(s) => write!(f, "{:?}", s),
+                // a tree without a rendering
+                Err(_) => write!(f, "{:#?}{:#?}", self.combinator, self.parts)
+            }
         }
     }
 }
-- 
2.43.0

