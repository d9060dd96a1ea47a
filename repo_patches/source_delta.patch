From 19f10c6d9e45be355d5e239005599a9162b91f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:04 +0000
Subject: [PATCH 01/59] fix: compare numeric version tokens beyond u64 by value

---
 crates/rez-next-version/src/version.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..a744d38 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -351,6 +351,10 @@ impl Version {
         if t1_all_num && t2_all_alpha {
             return Ordering::Greater;
         }
+        // Both numeric, at least one too large for an integer
+        if t1_all_num && t2_all_num {
+            return Self::compare_digits(t1, t2);
+        }
         // Both purely alpha: lexicographic
         if t1_all_alpha && t2_all_alpha {
             return t1.cmp(t2);
@@ -362,14 +366,10 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
+            let s1_is_num = s1.starts_with(|c: char| c.is_ascii_digit());
+            let s2_is_num = s2.starts_with(|c: char| c.is_ascii_digit());
             let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+                (true, true) => Self::compare_digits(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +381,12 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    /// Compare two strings of ASCII digits by numeric value, whatever their length.
+    fn compare_digits(d1: &str, d2: &str) -> Ordering {
+        let (d1, d2) = (d1.trim_start_matches('0'), d2.trim_start_matches('0'));
+        d1.len().cmp(&d2.len()).then_with(|| d1.cmp(d2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
-- 
2.43.0


From 93a0cbf1f34bd82963c5c2933b8896a0572c3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:30 +0000
Subject: [PATCH 02/59] fix: hash versions consistently with their equality

---
 crates/rez-next-version/src/version.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index a744d38..b7073a7 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -501,7 +501,26 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Must agree with `Eq`: separators, leading zeros and trailing zero tokens
+        // do not distinguish versions.
+        (self.is_inf(), self.is_empty()).hash(state);
+        let mut tokens: Vec<String> = self
+            .tokens
+            .iter()
+            .map(|token| {
+                Self::split_token_segments(token)
+                    .iter()
+                    .map(|seg| match seg.trim_start_matches('0') {
+                        "" => "0",
+                        value => value,
+                    })
+                    .collect()
+            })
+            .collect();
+        while tokens.last().is_some_and(|token| token == "0") {
+            tokens.pop();
+        }
+        tokens.hash(state);
     }
 }
 
-- 
2.43.0


From f7b0444c8b391c8c1a5b790b0d1648ae28f7e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:17 +0000
Subject: [PATCH 03/59] fix: read '..' intervals per alternative of a version
 range

---
 crates/rez-next-version/src/range/parser.rs | 23 ++++++++++-----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/rez-next-version/src/range/parser.rs b/crates/rez-next-version/src/range/parser.rs
index 419e334..4b649bf 100644
--- a/crates/rez-next-version/src/range/parser.rs
+++ b/crates/rez-next-version/src/range/parser.rs
@@ -13,10 +13,18 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
         return Ok(vec![BoundSet::none()]);
     }
 
+    // Split on | for OR (union); every alternative may use any range syntax
+    if s.contains('|') {
+        let mut result = Vec::new();
+        for or_part in s.split('|') {
+            result.extend(parse_range_str(or_part.trim())?);
+        }
+        return Ok(result);
+    }
+
     // Handle rez ".." interval syntax: "1.0..2.0" = ">=1.0,<2.0"
-    // Note: must check before splitting on |
     if s.contains("..") && !s.starts_with('.') {
-        // Only handle if it's a simple "a..b" form (no | or other operators in the whole string)
+        // Only handle if it's a simple "a..b" form (no other operators in the whole string)
         if let Some(dot_pos) = s.find("..") {
             let left = &s[..dot_pos];
             let right = &s[dot_pos + 2..];
@@ -36,16 +44,7 @@ pub(super) fn parse_range_str(s: &str) -> Result<Vec<BoundSet>, RezCoreError> {
         }
     }
 
-    // Split on | for OR (union)
-    let or_parts: Vec<&str> = s.split('|').collect();
-    let mut result = Vec::new();
-
-    for or_part in or_parts {
-        let bound_set = parse_conjunction(or_part.trim())?;
-        result.push(bound_set);
-    }
-
-    Ok(result)
+    Ok(vec![parse_conjunction(s)?])
 }
 
 /// Parse a conjunction of constraints (AND semantics)
-- 
2.43.0


From b0d36dfa9e192cbd48e9bd68b0e82db15707f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:17 +0000
Subject: [PATCH 04/59] fix: do not overflow the upper bound of '~=' version
 ranges

---
 crates/rez-next-version/src/range/types.rs | 44 +++++++++-------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..b41bcce 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -71,32 +71,24 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
             if version < v {
                 return false; // Must be >= v (lower bound)
             }
-            let parts: Vec<&str> = v.as_str().split('.').collect();
-            if parts.len() < 2 {
-                return version >= v;
-            }
-            // Calculate upper bound
-            let upper_str = if parts.len() == 2 {
-                // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
-                } else {
-                    return true;
-                }
-            } else {
-                // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
-                } else {
-                    return true;
-                }
-            };
-            if let Ok(upper) = Version::parse(&upper_str) {
-                version < &upper
-            } else {
-                // Fallback: just check >= v
-                version >= v
-            }
+            compatible_upper(v).is_none_or(|upper| version < &upper)
         }
     }
 }
+
+/// Exclusive upper bound of `~=v`, if it has one
+pub(super) fn compatible_upper(v: &Version) -> Option<Version> {
+    let parts: Vec<&str> = v.as_str().split('.').collect();
+    let upper_str = match parts.len() {
+        0 | 1 => return None,
+        // X.Y -> (X+1).0
+        2 => format!("{}.0", parts[0].parse::<u64>().ok()?.checked_add(1)?),
+        // X.Y.Z... -> X.(Y+1).0
+        _ => format!(
+            "{}.{}.0",
+            parts[0],
+            parts[1].parse::<u64>().ok()?.checked_add(1)?
+        ),
+    };
+    Version::parse(&upper_str).ok()
+}
-- 
2.43.0


From 23d3369639d3276d48885ce16c1027c4ee7ed4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:37 +0000
Subject: [PATCH 05/59] fix: let range difference and subset tests see every
 region between bounds

---
 crates/rez-next-version/src/range/mod.rs | 54 ++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..e630b93 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -15,7 +15,7 @@ use types::BoundSet;
 
 use parser::parse_range_str;
 use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
-use types::Bound;
+use types::{Bound, compatible_upper};
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
 #[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
@@ -241,30 +241,40 @@ impl VersionRange {
         other.is_subset_of(self)
     }
 
-    /// Collect probe versions from both self and other's bounds, plus "beyond" versions
-    fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
-        let mut versions = Vec::new();
-        for range in [self as &VersionRange, other] {
-            for bs in &range.bound_sets {
-                for bound in &bs.bounds {
-                    match bound {
-                        Bound::Ge(v)
-                        | Bound::Gt(v)
-                        | Bound::Le(v)
-                        | Bound::Lt(v)
-                        | Bound::Eq(v)
-                        | Bound::Ne(v)
-                        | Bound::Compatible(v) => {
-                            versions.push(v.clone());
-                            if let Ok(bumped) = Version::parse(&format!("{}.999999", v.as_str())) {
-                                versions.push(bumped);
-                            }
-                        }
-                        _ => {}
-                    }
+    /// Collect this range's bounds, and a version just below each, including excluded ranges
+    fn collect_probe_versions(&self, versions: &mut Vec<Version>) {
+        for bound in self.bound_sets.iter().flat_map(|bs| &bs.bounds) {
+            let bounds = match bound {
+                Bound::Ge(v)
+                | Bound::Gt(v)
+                | Bound::Le(v)
+                | Bound::Lt(v)
+                | Bound::Eq(v)
+                | Bound::Ne(v) => vec![v.clone()],
+                Bound::Compatible(v) => std::iter::once(v.clone())
+                    .chain(compatible_upper(v))
+                    .collect(),
+                Bound::Any | Bound::None => continue,
+            };
+            for v in bounds {
+                if let Ok(bumped) = Version::parse(&format!("{}.99999999999999999999", v.as_str()))
+                {
+                    versions.push(bumped);
                 }
+                versions.push(v);
             }
         }
+        for excluded in &self.subtract_from {
+            excluded.collect_probe_versions(versions);
+        }
+    }
+
+    /// Collect probe versions from both self and other's bounds, plus "beyond" versions
+    fn collect_probe_versions_with_other(&self, other: &VersionRange) -> Vec<Version> {
+        let mut versions = Vec::new();
+        self.collect_probe_versions(&mut versions);
+        other.collect_probe_versions(&mut versions);
+        versions.push(Version::inf());
         for s in &["0.0.1", "999.999.999"] {
             if let Ok(v) = Version::parse(s) {
                 versions.push(v);
-- 
2.43.0


From 992fbf67a1c8a0a18617c462b02b8c7fac923f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 06/59] fix: keep exclusions when a computed version range is
 combined again

---
 crates/rez-next-version/src/range/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index e630b93..554e64b 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -167,11 +167,18 @@ impl VersionRange {
         let new_str = format!("{}|{}", self.range_str, other.range_str);
         let mut sets = self.bound_sets.clone();
         sets.extend(other.bound_sets.clone());
+        // A version excluded from one side stays in the union if the other side has it
+        let excluded_from = |range: &VersionRange, keep: &VersionRange| {
+            let excluded = range.subtract_from.iter();
+            excluded.filter_map(|r| r.subtract(keep)).collect::<Vec<_>>()
+        };
+        let mut subtract_from = excluded_from(self, other);
+        subtract_from.extend(excluded_from(other, self));
         VersionRange {
             range_str: new_str,
             bound_sets: sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
+            subtract_from,
         }
     }
 
@@ -205,6 +212,9 @@ impl VersionRange {
 
     /// Check if this range is the "any" range (matches all versions)
     pub fn is_any(&self) -> bool {
+        if !self.subtract_from.is_empty() {
+            return false;
+        }
         let s = self.range_str.trim();
         if s.is_empty() || s == "*" {
             return true;
-- 
2.43.0


From 5f7f1b73a0d9b35d1eb87f4a94f62faef2649df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:25 +0000
Subject: [PATCH 07/59] fix: parse a version range when it is deserialized

---
 crates/rez-next-version/src/range/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 554e64b..391da0d 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -10,7 +10,7 @@ mod tests;
 
 use super::Version;
 use rez_next_common::RezCoreError;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 use types::BoundSet;
 
 use parser::parse_range_str;
@@ -18,7 +18,7 @@ use satisfiability::{bound_sets_intersect, is_bound_set_satisfiable};
 use types::{Bound, compatible_upper};
 
 /// `VersionRange` representation - a disjunction of `BoundSet`s (union of intersections)
-#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
+#[derive(Clone, Debug, PartialEq, Eq, Serialize)]
 pub struct VersionRange {
     /// Cached string representation
     pub range_str: String,
@@ -33,6 +33,17 @@ pub struct VersionRange {
     subtract_from: Vec<VersionRange>,
 }
 
+impl<'de> Deserialize<'de> for VersionRange {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        struct Stored {
+            range_str: String,
+        }
+        let stored = Stored::deserialize(deserializer)?;
+        Self::parse(&stored.range_str).map_err(serde::de::Error::custom)
+    }
+}
+
 impl VersionRange {
     /// Create a new version range from a string
     #[allow(clippy::missing_errors_doc)]
-- 
2.43.0


From 26521e1879c27bbc198b2f9fe2b409b3be17e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:21 +0000
Subject: [PATCH 08/59] fix: compare requirement constraints with the version
 order at their depth

---
 .../rez-next-package/src/requirement/types.rs | 58 +++----------------
 crates/rez-next-version/src/version.rs        |  9 +++
 2 files changed, 17 insertions(+), 50 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..02f2d72 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -261,30 +261,13 @@ impl VersionConstraint {
                 // Rule:
                 //   ~=X.Y   → prefix=["X"] (locked), minor >= Y
                 //   ~=X.Y.Z → prefix=["X","Y"] (locked), patch >= Z
-                let version_parts: Vec<&str> = version.as_str().split('.').collect();
-                let constraint_parts: Vec<&str> = v.as_str().split('.').collect();
-
-                if constraint_parts.is_empty() {
-                    return true;
-                }
-                if version_parts.len() < constraint_parts.len() {
-                    return false;
-                }
-
-                let last_idx = constraint_parts.len() - 1;
-                for i in 0..last_idx {
-                    if version_parts[i] != constraint_parts[i] {
-                        return false;
-                    }
-                }
-
-                let v_last = version_parts[last_idx];
-                let c_last = constraint_parts[last_idx];
-                if let (Ok(vn), Ok(cn)) = (v_last.parse::<u64>(), c_last.parse::<u64>()) {
-                    vn >= cn
-                } else {
-                    v_last >= c_last
-                }
+                let locked = match v.as_str().rsplit_once(['.', '-', '+']) {
+                    Some((prefix, _)) => Version::parse(prefix),
+                    None => Ok(Version::empty()),
+                };
+                version.len() >= v.len()
+                    && locked.is_ok_and(|locked| version.has_prefix(&locked))
+                    && Self::cmp_at_depth(version, v) != std::cmp::Ordering::Less
             }
             VersionConstraint::Range(min, max) => version >= min && version < max,
             VersionConstraint::Multiple(constraints) => {
@@ -326,32 +309,7 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
-        }
-
-        std::cmp::Ordering::Equal
+        version.cmp_at_depth(constraint_ver)
     }
 
     /// Combine two constraints with AND logic
diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index b7073a7..a1cbc26 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -70,6 +70,15 @@ impl Version {
                     Self::compare_single_token(token, prefix_token) == Ordering::Equal
                 })
     }
+
+    /// Compare with `other` looking only at the first `other.len()` tokens of this version.
+    pub fn cmp_at_depth(&self, other: &Version) -> Ordering {
+        let depth = other.tokens.len();
+        if depth == 0 || self.tokens.len() <= depth {
+            return self.compare_rez(other);
+        }
+        Self::compare_token_strings(&self.tokens[..depth], &other.tokens)
+    }
 }
 
 impl Version {
-- 
2.43.0


From 41a0366e72bd00c5968fb99447134a0c120062e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:39 +0000
Subject: [PATCH 09/59] fix: keep the architecture and negation of requirement
 conditions

---
 .../src/requirement/display.rs                |  1 +
 .../src/requirement/parser.rs                 | 21 ++++++-------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..0abc519 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -106,21 +106,12 @@ impl RequirementParser {
             let platform =
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
-            let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
+            let rest = &condition[platform_start + platform_end + 2..];
+            let arch = rest.find("arch").and_then(|arch_pos| {
+                let mut quoted = rest[arch_pos..].split('\'').skip(1);
+                let value = quoted.next()?;
+                quoted.next().map(|_| value.to_string())
+            });
 
             return Ok(PlatformCondition {
                 platform,
-- 
2.43.0


From fe397ff10adf60a386277dc87d57224a48cb1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:03 +0000
Subject: [PATCH 10/59] fix: apply every term of a requirement that mixes
 wildcards and bounds

---
 crates/rez-next-package/src/requirement/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 0abc519..42147a4 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -168,7 +168,9 @@ impl RequirementParser {
         &self,
         s: &str,
     ) -> Result<(String, Option<VersionConstraint>), String> {
-        if let Some(captures) = self.patterns.wildcard.captures(s) {
+        if !s.contains(',')
+            && let Some(captures) = self.patterns.wildcard.captures(s)
+        {
             let name = captures.get(1).unwrap().as_str().to_string();
             let pattern = captures.get(2).unwrap().as_str().to_string();
             return Ok((name, Some(VersionConstraint::Wildcard(pattern))));
@@ -303,6 +305,9 @@ impl RequirementParser {
         if let Some(captures) = version_pattern.captures(constraint_str) {
             let op = captures.get(1).unwrap().as_str();
             let version_str = captures.get(2).unwrap().as_str();
+            if op == "==" && version_str.find('*').is_some_and(|star| star > 0) {
+                return Ok(VersionConstraint::Wildcard(version_str.to_string()));
+            }
             let version = Version::parse(version_str)
                 .map_err(|e| format!("Invalid version {}: {}", version_str, e))?;
 
-- 
2.43.0


From 7d72f196525224dbf54ed9fcd546c250002b4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:27 +0000
Subject: [PATCH 11/59] fix: read back printed package requirements with the
 same name and version

---
 .../src/package/requirement.rs                 | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..ec8d001 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -22,7 +22,13 @@ pub struct PackageRequirement {
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+            // Operator specs attach directly: "name->=1" would name a package "name-".
+            let separator = if version.starts_with(['<', '>', '=', '!', '~']) {
+                ""
+            } else {
+                "-"
+            };
+            format!("{}{}{}", self.name, separator, version)
         } else {
             self.name.clone()
         };
@@ -67,6 +73,7 @@ impl PackageRequirement {
     /// - `!python` — conflict requirement (must NOT be present)
     /// - `!python-3.9` — conflict requirement with version
     pub fn parse(requirement_str: &str) -> Result<Self, RezCoreError> {
+        let requirement_str = requirement_str.trim();
         let (s, conflict) = if let Some(rest) = requirement_str.strip_prefix('!') {
             (rest, true)
         } else {
@@ -84,7 +91,14 @@ impl PackageRequirement {
         };
 
         let parsed: ParsedRequirement = s.parse().map_err(RezCoreError::RequirementParse)?;
-        let remainder = &s[parsed.name.len()..];
+        let s = s.trim_start();
+        let s = parsed
+            .namespace
+            .as_ref()
+            .map_or(s, |namespace| &s[namespace.len() + 2..]);
+        let remainder = s.strip_prefix(parsed.name.as_str()).ok_or_else(|| {
+            RezCoreError::RequirementParse(format!("Invalid requirement: {}", requirement_str))
+        })?;
         let version_spec = remainder.strip_prefix('-').unwrap_or(remainder);
         let mut req = if version_spec.is_empty() {
             Self::new(parsed.name)
-- 
2.43.0


From 021840c10f3147a552a2966477a348f915fc6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 12/59] fix: package requirements accept the versions the
 resolver accepts

---
 crates/rez-next-package/src/package/requirement.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index ec8d001..8f4f7b4 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -132,6 +132,13 @@ impl PackageRequirement {
             if spec.is_empty() {
                 return true;
             }
+            // Read the spec as the resolver does, so both accept the same versions.
+            if let Ok(parsed) = self.to_string().parse::<ParsedRequirement>()
+                && parsed.name == self.name
+                && let Some(constraint) = parsed.version_constraint
+            {
+                return constraint.is_satisfied_by(version);
+            }
             if spec.contains(',') {
                 return spec
                     .split(',')
-- 
2.43.0


From 042af8f32c6c16ab1cef1d1ee499fde0a223358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 13/59] fix: drop a picked package when a later pick conflicts
 with it

---
 crates/rez-next-solver/src/dependency_resolver.rs | 12 ++++++++++++
 crates/rez-next-solver/src/resolution_state.rs    |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..cc073c2 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -294,6 +294,18 @@ impl DependencyResolver {
 
         for resolved in &state.resolved_packages {
             let source = &resolved.package.name;
+            if state
+                .package_conflict_requirements
+                .get(source)
+                .is_some_and(|conflicts| {
+                    conflicts
+                        .iter()
+                        .any(|conflict| conflict.name == failed_requirement.name)
+                })
+            {
+                other_sources.push(source.clone());
+                continue;
+            }
             let Some(requirements) = state.package_requirements.get(source) else {
                 continue;
             };
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..b8d3968 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -310,6 +310,8 @@ impl ResolutionState {
                     .version
                     .as_ref()
                     .is_none_or(|v| requirement.is_satisfied_by(v))
+                // A conflict introduced after the package was picked unpicks it.
+                && self.check_explicit_conflicts(&pkg.package).is_none()
         })
     }
 
-- 
2.43.0


From ed774bf5b1d66b11c73a2002a2db40e33e8e9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 14/59] fix: try another dependent when a required package has
 no candidate

---
 crates/rez-next-solver/src/dependency_resolver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index cc073c2..d27d286 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -216,6 +216,13 @@ impl DependencyResolver {
                 .any(|resolved| resolved.package.name == requirement.name);
 
             if candidates.is_empty() {
+                if self.config.strict_mode
+                    && self
+                        .backtrack_dependency_source(state, &requirement)
+                        .await?
+                {
+                    continue;
+                }
                 state.failed_requirements.push(requirement.clone());
                 continue;
             }
-- 
2.43.0


From bc75016beb2e3aa6d8c68329119de92329964c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 15/59] fix: stop when packages keep replacing each other

---
 crates/rez-next-solver/src/dependency_resolver.rs | 11 +++++++++++
 crates/rez-next-solver/src/resolution_state.rs    |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index d27d286..f67dce0 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -258,6 +258,17 @@ impl DependencyResolver {
                 }
             }
 
+            // Packages that keep replacing each other would never settle.
+            if resolved && has_resolved_package {
+                state.replacements += 1;
+                if state.replacements > self.config.max_attempts {
+                    return Err(RezCoreError::Solver(format!(
+                        "No stable solution found after replacing packages {} times (last: {})",
+                        self.config.max_attempts, requirement
+                    )));
+                }
+            }
+
             if !resolved
                 && !self.config.strict_mode
                 && !has_resolved_package
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index b8d3968..fafba75 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -51,6 +51,7 @@ pub(crate) struct ResolutionState {
     pub(crate) packages_considered: usize,
     pub(crate) variants_evaluated: usize,
     pub(crate) backtrack_steps: usize,
+    pub(crate) replacements: usize,
 }
 
 impl ResolutionState {
@@ -78,6 +79,7 @@ impl ResolutionState {
             packages_considered: 0,
             variants_evaluated: 0,
             backtrack_steps: 0,
+            replacements: 0,
         };
         state.rebuild_constraints();
         state
-- 
2.43.0


From a92e4f8f3394b24ce15024bba6a557f82c17b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:48 +0000
Subject: [PATCH 16/59] fix: rex expands references in one deterministic pass

---
 crates/rez-next-rex/src/executor.rs | 39 +++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..1225458 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -88,13 +88,42 @@ impl RexExecutor {
 
     /// Expand {variable} references in action values
     fn expand_action_vars(&self, action: RexAction) -> RexAction {
-        let expand = |s: &str| -> String {
-            let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
-                result = result.replace(&format!("{{{}}}", key), value);
+        // References are replaced in one pass, the longest match first, so the
+        // result does not depend on map order and values are never re-expanded.
+        let mut references: Vec<(String, &String)> = self
+            .context_vars
+            .iter()
+            .flat_map(|(key, value)| {
                 // Also support $NAME style
-                result = result.replace(&format!("${}", key.to_uppercase()), value);
+                [
+                    (format!("{{{}}}", key), value),
+                    (format!("${}", key.to_uppercase()), value),
+                ]
+            })
+            .collect();
+        references.sort_by_key(|(reference, _)| std::cmp::Reverse(reference.len()));
+        let expand = |s: &str| -> String {
+            let mut result = String::with_capacity(s.len());
+            let mut rest = s;
+            while let Some(start) = rest.find(['{', '$']) {
+                result.push_str(&rest[..start]);
+                rest = &rest[start..];
+                let reference = references
+                    .iter()
+                    .find(|(reference, _)| rest.starts_with(reference.as_str()));
+                let consumed = match reference {
+                    Some((reference, value)) => {
+                        result.push_str(value);
+                        reference.len()
+                    }
+                    None => {
+                        result.push_str(&rest[..1]);
+                        1
+                    }
+                };
+                rest = &rest[consumed..];
             }
+            result.push_str(rest);
             result
         };
 
-- 
2.43.0


From b1ad59da54363487e331b460954fffde5053e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:06 +0000
Subject: [PATCH 17/59] fix: rex activation scripts quote every value they
 embed

---
 crates/rez-next-rex/src/shell.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..6f85c8d 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -46,6 +46,14 @@ pub fn generate_shell_script(env: &RexEnvironment, shell: &ShellType) -> String
     }
 }
 
+/// Escape text for a bash double-quoted string (variable references still expand)
+fn escape_bash_double_quoted(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('`', "\\`")
+}
+
 /// Generate bash/zsh activation script
 fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut lines = Vec::new();
@@ -56,8 +64,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
     let mut vars: Vec<_> = env.vars.iter().collect();
     vars.sort_by_key(|(k, _)| k.as_str());
     for (key, value) in &vars {
-        // Escape double quotes in value
-        let escaped = value.replace('\\', "\\\\").replace('"', "\\\"");
+        let escaped = escape_bash_double_quoted(value);
         lines.push(format!("export {}=\"{}\"", key, escaped));
     }
 
@@ -87,7 +94,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = escape_bash_double_quoted(script);
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -97,7 +104,8 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
-            let escaped = msg.replace('\'', "'\\''");
+            // Every line of the message stays inside a comment
+            let escaped = msg.replace('\'', "'\\''").replace(['\n', '\r'], "\n# ");
             lines.push(format!("# [info] {}", escaped));
         }
     }
@@ -125,7 +133,9 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        // Single quotes: the alias body expands when the alias runs, not now
+        let escaped = cmd.replace('\\', "\\\\").replace('\'', "\\'");
+        lines.push(format!("alias {} '{}'", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
@@ -139,7 +149,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     if !env.sourced_scripts.is_empty() {
         lines.push(String::new());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = script.replace('\\', "\\\\").replace('"', "\\\"");
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -216,7 +226,8 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        let escaped = cmd.replace('\'', "''");
+        lines.push(format!("Set-Alias -Name {} -Value '{}'", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
-- 
2.43.0


From 037abeb3a9e242d68ef99ff5f7ad88e3fff36605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:06 +0000
Subject: [PATCH 18/59] fix: context scripts escape the shell's own escape
 character

---
 crates/rez-next-context/src/environment.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..897bfda 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -461,6 +461,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace("\\", "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -468,12 +469,18 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace("`", "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace("\\", "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
-- 
2.43.0


From f4ae0e39313c93d6c643a46a24104d81b979006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:15 +0000
Subject: [PATCH 19/59] fix: PATH normalization leaves variables such as Path
 alone on Unix

---
 crates/rez-next-context/src/environment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 897bfda..f0609da 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -565,7 +565,8 @@ fn environment_key(name: &str) -> String {
 pub fn normalize_environment_paths(env_vars: &mut HashMap<String, String>) {
     let path_key = env_vars
         .keys()
-        .find(|name| name.eq_ignore_ascii_case("PATH"))
+        // Variable names only ignore case on Windows
+        .find(|name| cfg!(windows) && name.eq_ignore_ascii_case("PATH"))
         .cloned()
         .unwrap_or_else(|| environment_key("PATH"));
     let Some(path) = env_vars.get_mut(&path_key) else {
-- 
2.43.0


From a4532e243801dc7ab96ecfae98a2c6a00b5566a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 20/59] fix: package copy, move and remove refuse names that
 are paths

---
 crates/rez-next-package/src/package_copy.rs   | 25 ++++++++++++++++---
 crates/rez-next-package/src/package_remove.rs | 14 +++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..b02d8a8 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -10,7 +10,7 @@
 //! - **Disk space (#N/A)**: Pre-check available disk space before copy operations.
 
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use thiserror::Error;
 
@@ -131,7 +131,17 @@ pub fn find_package_dir(
     version: &str,
     search_paths: &[PathBuf],
 ) -> Result<PathBuf, PackageCopyError> {
-    for base in search_paths {
+    locate_package_dir(name, version, search_paths).map(|dir| normalize_path(&dir))
+}
+
+/// Find a package directory as it is named in its search path (links not resolved).
+pub(crate) fn locate_package_dir(
+    name: &str,
+    version: &str,
+    search_paths: &[PathBuf],
+) -> Result<PathBuf, PackageCopyError> {
+    let valid = is_directory_name(name) && is_directory_name(version);
+    for base in search_paths.iter().filter(|_| valid) {
         // Check both version and version subdir patterns
         let candidates = [
             base.join(name).join(version),
@@ -140,7 +150,7 @@ pub fn find_package_dir(
 
         for candidate in &candidates {
             if candidate.exists() && candidate.is_dir() {
-                return Ok(normalize_path(candidate));
+                return Ok(candidate.clone());
             }
         }
     }
@@ -151,6 +161,15 @@ pub fn find_package_dir(
     })
 }
 
+/// Whether `text` names exactly one directory level ("", ".", ".." and paths do not).
+pub(crate) fn is_directory_name(text: &str) -> bool {
+    let mut components = Path::new(text).components();
+    matches!(
+        (components.next(), components.next()),
+        (Some(Component::Normal(name)), None) if name == text
+    )
+}
+
 /// Normalize a path to avoid UNC path issues on Windows.
 ///
 /// Addresses Rez issue #1438: "Environment resolution uses UNC paths with Python 3.10"
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..6e48c4f 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -81,6 +81,8 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    require_directory_name(name)?;
+    require_directory_name(version)?;
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -125,6 +127,17 @@ pub fn remove_package_version(
     })
 }
 
+/// Refuse names that would reach outside a package family ("", "..", paths).
+fn require_directory_name(text: &str) -> Result<(), PackageRemoveError> {
+    if crate::package_copy::is_directory_name(text) {
+        Ok(())
+    } else {
+        Err(PackageRemoveError::NotAPackage {
+            path: text.to_string(),
+        })
+    }
+}
+
 /// Remove an entire package family (all versions).
 ///
 /// Safety: This removes ALL versions. Use with caution.
@@ -132,6 +145,7 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    require_directory_name(name)?;
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-- 
2.43.0


From c4f6a45899242c0e6bbcea930f3a4da1f6605849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 21/59] fix: copying a package onto itself with force no longer
 deletes it

---
 crates/rez-next-package/src/package_copy.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index b02d8a8..e362e7a 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -98,6 +98,15 @@ pub fn copy_package(
 
     let dest = dest_base.join(name).join(version);
 
+    // Overwriting must never delete the source itself
+    let dest_normalized = normalize_path(&dest);
+    if src.starts_with(&dest_normalized) {
+        return Err(PackageCopyError::Other(format!(
+            "Source and destination are the same location: {}",
+            src.display()
+        )));
+    }
+
     // Check destination
     if dest.exists() {
         if config.force {
-- 
2.43.0


From 7474bce78a1eb4f5391235c06d0b2022aa388617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:27 +0000
Subject: [PATCH 22/59] fix: moving a package removes only its source, not
 other copies

---
 crates/rez-next-package/src/package_move.rs   | 14 +++-----------
 crates/rez-next-package/src/package_remove.rs | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..1d679f6 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_remove::{self, PackageRemoveError};
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -84,15 +84,6 @@ impl PackageMoveConfig {
             normalize_paths: self.normalize_paths,
         }
     }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
 }
 
 /// Move a package from one location to another.
@@ -123,6 +114,7 @@ pub fn move_package(
 ) -> Result<PackageMoveResult, PackageMoveError> {
     // Prevent moving to the same location
     let dest = dest_base.join(name).join(version);
+    let located = package_copy::locate_package_dir(name, version, &config.packages_path)?;
     let src = package_copy::find_package_dir(name, version, &config.packages_path)?;
 
     // Normalize both paths
@@ -141,7 +133,7 @@ pub fn move_package(
 
     // Phase 2: Remove source (unless keep_source)
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        package_remove::remove_package_dir(&located)?;
         true
     } else {
         false
diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 6e48c4f..53173d2 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -9,7 +9,7 @@
 //! - **Dry-run support**: Always provide a way to preview what will be removed.
 
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use thiserror::Error;
 
@@ -138,6 +138,18 @@ fn require_directory_name(text: &str) -> Result<(), PackageRemoveError> {
     }
 }
 
+/// Remove one package directory, and its family directory if that leaves it empty.
+pub(crate) fn remove_package_dir(dir: &Path) -> Result<(), PackageRemoveError> {
+    fs::remove_dir_all(dir)?;
+    if let Some(family_dir) = dir.parent()
+        && let Ok(entries) = fs::read_dir(family_dir)
+        && entries.count() == 0
+    {
+        fs::remove_dir(family_dir)?;
+    }
+    Ok(())
+}
+
 /// Remove an entire package family (all versions).
 ///
 /// Safety: This removes ALL versions. Use with caution.
-- 
2.43.0


From cb7052bb5466a846cc2a8af52e81d78e45bc7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:54 +0000
Subject: [PATCH 23/59] fix: an edge to a package that is not in the graph
 leaves no dangling dependency

---
 crates/rez-next-solver/src/graph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index dc6cc1e..6653637 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -198,6 +198,14 @@ impl DependencyGraph {
         from_key: &str,
         to_key: &str,
     ) -> Result<(), RezCoreError> {
+        // An edge is only added when both ends exist
+        if !self.nodes.contains_key(to_key) {
+            return Err(RezCoreError::Solver(format!(
+                "Package {} not found in graph",
+                to_key
+            )));
+        }
+
         // Add dependency to the from node
         if let Some(from_node) = self.nodes.get_mut(from_key) {
             from_node.add_dependency(to_key.to_string());
-- 
2.43.0


From fa765c210695a1e6a24e18571e1d77e7ac8079b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:54 +0000
Subject: [PATCH 24/59] fix: adding a package again keeps its edges in the
 dependency graph

---
 crates/rez-next-solver/src/graph.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index 6653637..f955ebf 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -164,8 +164,13 @@ impl DependencyGraph {
             )));
         }
 
-        let node = GraphNode::new(package);
-        self.nodes.insert(key, node);
+        // Adding a package that is already there replaces it and keeps its edges
+        match self.nodes.get_mut(&key) {
+            Some(node) => node.package = package,
+            None => {
+                self.nodes.insert(key, GraphNode::new(package));
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 929406b80890f50ecbda04dfbfd5de71819968e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:54 +0000
Subject: [PATCH 25/59] fix: graph depth is the longest dependency chain, also
 where chains share packages

---
 crates/rez-next-solver/src/graph.rs | 37 +++++++++++++----------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index f955ebf..3a2addb 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -425,10 +425,11 @@ impl DependencyGraph {
     pub fn get_stats(&self) -> GraphStats {
         let mut total_dependencies = 0;
         let mut max_depth = 0;
+        let mut depths = HashMap::new();
 
         for node in self.nodes.values() {
             total_dependencies += node.dependencies.len();
-            let depth = self.calculate_node_depth(&node.key());
+            let depth = self.calculate_node_depth(&node.key(), &mut depths);
             max_depth = max_depth.max(depth);
         }
 
@@ -555,30 +556,24 @@ impl DependencyGraph {
         None
     }
 
-    /// Calculate the depth of a node in the graph
-    fn calculate_node_depth(&self, node_key: &str) -> usize {
-        let mut visited = HashSet::new();
-        self.calculate_depth_recursive(node_key, &mut visited)
-    }
-
-    /// Recursive helper for depth calculation
-    fn calculate_depth_recursive(&self, node_key: &str, visited: &mut HashSet<String>) -> usize {
-        if visited.contains(node_key) {
-            return 0; // Avoid infinite recursion
+    /// Calculate the depth of a node in the graph: the longest chain starting at it.
+    /// `depths` holds the nodes already calculated, and 0 for those in progress.
+    fn calculate_node_depth(&self, node_key: &str, depths: &mut HashMap<String, usize>) -> usize {
+        if let Some(depth) = depths.get(node_key) {
+            return *depth;
         }
 
-        visited.insert(node_key.to_string());
+        let Some(node) = self.nodes.get(node_key) else {
+            return 0;
+        };
+        depths.insert(node_key.to_string(), 0); // Avoid infinite recursion
 
-        if let Some(node) = self.nodes.get(node_key) {
-            let mut max_dep_depth = 0;
-            for dep_key in &node.dependencies {
-                let dep_depth = self.calculate_depth_recursive(dep_key, visited);
-                max_dep_depth = max_dep_depth.max(dep_depth);
-            }
-            max_dep_depth + 1
-        } else {
-            0
+        let mut max_dep_depth = 0;
+        for dep_key in &node.dependencies {
+            max_dep_depth = max_dep_depth.max(self.calculate_node_depth(dep_key, depths));
         }
+        depths.insert(node_key.to_string(), max_dep_depth + 1);
+        max_dep_depth + 1
     }
 }
 
-- 
2.43.0


From 8f12f49d1e6a44cdb53e005452dba33d3ee1cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:54 +0000
Subject: [PATCH 26/59] fix: an excluded end point stays excluded when ranges
 are intersected

---
 .../rez-next-version/src/range/satisfiability.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index df6dceb..5b85147 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -19,8 +19,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
             Bound::None => return false,
             Bound::Ge(v) => match lower {
                 None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
+                Some((lv, _)) => {
+                    if v > lv {
                         lower = Some((v, true));
                     }
                 }
@@ -35,8 +35,8 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
             },
             Bound::Le(v) => match upper {
                 None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
+                Some((uv, _)) => {
+                    if v < uv {
                         upper = Some((v, true));
                     }
                 }
@@ -54,9 +54,9 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
                 match lower {
                     None => lower = Some((v, true)),
                     Some((lv, linc)) => {
-                        if v > lv || (v == lv && !linc) {
+                        if v > lv {
                             lower = Some((v, true));
-                        } else if v < lv {
+                        } else if v < lv || !linc {
                             // v must be >= lv but eq requires v exactly — contradiction
                             return false;
                         }
@@ -65,9 +65,9 @@ pub(super) fn is_bound_set_satisfiable(bs: &BoundSet) -> bool {
                 match upper {
                     None => upper = Some((v, true)),
                     Some((uv, uinc)) => {
-                        if v < uv || (v == uv && !uinc) {
+                        if v < uv {
                             upper = Some((v, true));
-                        } else if v > uv {
+                        } else if v > uv || !uinc {
                             return false;
                         }
                     }
-- 
2.43.0


From 40d44467de7758eaf05596672c768b96b546c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:03 +0000
Subject: [PATCH 27/59] fix: unique base26 links can still be created after the
 36th

---
 crates/rez-next-util/src/base26.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-util/src/base26.rs b/crates/rez-next-util/src/base26.rs
index efc8c46..c1864da 100644
--- a/crates/rez-next-util/src/base26.rs
+++ b/crates/rez-next-util/src/base26.rs
@@ -205,7 +205,7 @@ fn find_matching_symlink(dir: &Path, target: &Path) -> Result<Option<PathBuf>, B
     Ok(None)
 }
 
-/// Get the maximum (lexicographically last) Base26 name in the directory.
+/// Get the maximum (last generated) Base26 name in the directory; longer names come later.
 /// Returns None if no valid Base26 names exist.
 #[cfg(unix)]
 fn get_max_base26_name(dir: &Path) -> Result<Option<String>, Base26Error> {
@@ -225,7 +225,7 @@ fn get_max_base26_name(dir: &Path) -> Result<Option<String>, Base26Error> {
         match &max_name {
             None => max_name = Some(name),
             Some(current) => {
-                if name > *current {
+                if (name.len(), &name) > (current.len(), current) {
                     max_name = Some(name);
                 }
             }
-- 
2.43.0


From 68447d2261eb9c4fc95f4a7562af53270ff80b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:03 +0000
Subject: [PATCH 28/59] fix: truncating text does not panic inside a multi-byte
 character

---
 crates/rez-next-util/src/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-util/src/string.rs b/crates/rez-next-util/src/string.rs
index a534258..8445a34 100644
--- a/crates/rez-next-util/src/string.rs
+++ b/crates/rez-next-util/src/string.rs
@@ -33,7 +33,12 @@ pub fn truncate(s: &str, max_len: usize) -> String {
     } else if s.len() <= max_len - 3 {
         s.to_string()
     } else {
-        format!("{}...", &s[..max_len - 3])
+        // Never cut inside a character
+        let mut end = max_len - 3;
+        while !s.is_char_boundary(end) {
+            end -= 1;
+        }
+        format!("{}...", &s[..end])
     }
 }
 
-- 
2.43.0


From e2d3e7e8cfb753148e1e4c197d8cd2aa5e97b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:03 +0000
Subject: [PATCH 29/59] fix: a duration too large to represent is refused
 instead of wrapping

---
 crates/rez-next-util/src/time.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-util/src/time.rs b/crates/rez-next-util/src/time.rs
index 88bbcab..3afbdd5 100644
--- a/crates/rez-next-util/src/time.rs
+++ b/crates/rez-next-util/src/time.rs
@@ -47,19 +47,28 @@ pub fn parse_duration(s: &str) -> Result<Duration, String> {
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(mins * 60))
+        mins
+            .checked_mul(60)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too large: {}", s))
     } else if let Some(num_str) = s.strip_suffix('h') {
         let hours: u64 = num_str
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(hours * 3600))
+        hours
+            .checked_mul(3600)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too large: {}", s))
     } else if let Some(num_str) = s.strip_suffix('d') {
         let days: u64 = num_str
             .trim()
             .parse()
             .map_err(|_| format!("Invalid number: {}", num_str))?;
-        Ok(Duration::from_secs(days * 86400))
+        days
+            .checked_mul(86400)
+            .map(Duration::from_secs)
+            .ok_or_else(|| format!("Duration too large: {}", s))
     } else {
         // Try to parse as pure number (seconds)
         let secs: u64 = s.parse().map_err(|_| format!("Invalid duration: {}", s))?;
-- 
2.43.0


From ea5105d431b51148c847730f8a14c545b5ab9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 30/59] fix: a range rule of a package filter applies only to
 the package it names

---
 crates/rez-next-package/src/filter.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-package/src/filter.rs b/crates/rez-next-package/src/filter.rs
index 30f61f5..2c8d316 100644
--- a/crates/rez-next-package/src/filter.rs
+++ b/crates/rez-next-package/src/filter.rs
@@ -145,14 +145,13 @@ impl RangeRule {
 
 impl Rule for RangeRule {
     fn matches(&self, package: &Package) -> bool {
-        if let Some(ref version) = package.version {
-            if let Some(ref vc) = self.requirement.version_constraint {
-                vc.is_satisfied_by(version)
-            } else {
-                false
-            }
-        } else {
-            false
+        if package.name != self.requirement.name {
+            return false;
+        }
+        match (&self.requirement.version_constraint, &package.version) {
+            (None, _) => true,
+            (Some(vc), Some(version)) => vc.is_satisfied_by(version),
+            (Some(_), None) => false,
         }
     }
 
-- 
2.43.0


From 2962df34ca23e62968f7c4bea42eb446cb1d4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 31/59] fix: a stored timestamp rule reads back with the same
 meaning

---
 crates/rez-next-package/src/filter.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/rez-next-package/src/filter.rs b/crates/rez-next-package/src/filter.rs
index 2c8d316..e615396 100644
--- a/crates/rez-next-package/src/filter.rs
+++ b/crates/rez-next-package/src/filter.rs
@@ -249,9 +249,13 @@ impl Rule for TimestampRule {
     }
 
     fn to_pod(&self) -> String {
-        let prefix = if self.before { "before" } else { "after" };
-        let incl = if self.inclusive { ":" } else { "" };
-        format!("timestamp({}{}{})", prefix, incl, self.timestamp)
+        let prefix = match (self.before, self.inclusive) {
+            (true, false) => "before",
+            (false, false) => "after",
+            (true, true) => "at_or_before",
+            (false, true) => "at_or_after",
+        };
+        format!("timestamp({}:{})", prefix, self.timestamp)
     }
 
     fn clone_box(&self) -> Box<dyn Rule + Send + Sync> {
@@ -534,15 +538,14 @@ pub fn parse_rule(s: &str) -> Option<Box<dyn Rule + Send + Sync>> {
         let parts: Vec<&str> = inner.splitn(2, ':').collect();
         if parts.len() == 2 {
             let timestamp = parts[1].parse::<i64>().ok()?;
-            if parts[0] == "before" {
-                return Some(
-                    Box::new(TimestampRule::before(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            } else if parts[0] == "after" {
-                return Some(
-                    Box::new(TimestampRule::after(timestamp)) as Box<dyn Rule + Send + Sync>
-                );
-            }
+            let rule = match parts[0] {
+                "before" => TimestampRule::before(timestamp),
+                "after" => TimestampRule::after(timestamp),
+                "at_or_before" => TimestampRule::at_or_before(timestamp),
+                "at_or_after" => TimestampRule::at_or_after(timestamp),
+                _ => return None,
+            };
+            return Some(Box::new(rule) as Box<dyn Rule + Send + Sync>);
         }
     }
 
-- 
2.43.0


From 8c9d9ca02d85eab7cb0dd215d087c6ca1d27ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:16 +0000
Subject: [PATCH 32/59] fix: glob rules match backslashes and line breaks
 literally

---
 crates/rez-next-package-filter/src/rule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-package-filter/src/rule.rs b/crates/rez-next-package-filter/src/rule.rs
index 3420a0b..93472b2 100644
--- a/crates/rez-next-package-filter/src/rule.rs
+++ b/crates/rez-next-package-filter/src/rule.rs
@@ -141,13 +141,13 @@ impl GlobRule {
     fn matches_glob(pattern: &str, text: &str) -> bool {
         // Convert glob pattern to regex
         let mut regex_pattern = String::with_capacity(pattern.len() * 2);
-        regex_pattern.push('^');
+        regex_pattern.push_str("(?s)^");
 
         for c in pattern.chars() {
             match c {
                 '*' => regex_pattern.push_str(".*"),
                 '?' => regex_pattern.push('.'),
-                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' => {
+                '.' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '+' | '\\' => {
                     regex_pattern.push('\\');
                     regex_pattern.push(c);
                 }
-- 
2.43.0


From 51ee4030110ca2bbe0270a147f63b5cd6483f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:16 +0000
Subject: [PATCH 33/59] fix: glob rules on the version match the version text

---
 crates/rez-next-package-filter/src/rule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package-filter/src/rule.rs b/crates/rez-next-package-filter/src/rule.rs
index 93472b2..13dc98b 100644
--- a/crates/rez-next-package-filter/src/rule.rs
+++ b/crates/rez-next-package-filter/src/rule.rs
@@ -169,7 +169,10 @@ impl Rule for GlobRule {
     fn apply(&self, package: &Package) -> RuleMatch {
         let text = match self.field {
             GlobField::Name => &package.name,
-            GlobField::Version => return RuleMatch::DoesNotMatch, // Version is a struct
+            GlobField::Version => match &package.version {
+                Some(version) => version.as_str(),
+                None => return RuleMatch::DoesNotMatch,
+            },
             GlobField::Description => package.description.as_deref().unwrap_or(""),
         };
 
-- 
2.43.0


From 1ae78ac1677a3eb082eb5dcacc2073ffd034c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 34/59] fix: the version split orderer accepts packages without
 a version

---
 crates/rez-next-package/src/package_order.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 68a33b8..69961e2 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -201,7 +201,12 @@ impl PackageOrder for VersionSplitPackageOrder {
         }
 
         before.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
-        after.sort_by(|a, b| a.version.as_ref().unwrap().cmp(b.version.as_ref().unwrap()));
+        after.sort_by(|a, b| match (&a.version, &b.version) {
+            (Some(av), Some(bv)) => av.cmp(bv),
+            (Some(_), None) => std::cmp::Ordering::Less,
+            (None, Some(_)) => std::cmp::Ordering::Greater,
+            (None, None) => std::cmp::Ordering::Equal,
+        });
 
         let mut result = before;
         result.extend(after);
-- 
2.43.0


From 9e5a70dbbebeda0a700780e4822d98131bb92c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 35/59] fix: the per-family orderer gives the same order every
 time

---
 crates/rez-next-package/src/package_order.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 69961e2..9c1ef79 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -256,13 +256,13 @@ impl PackageOrder for PerFamilyOrder {
     }
 
     fn reorder(&self, packages: &[Package]) -> Option<Vec<Package>> {
-        // Group by family
-        let mut grouped: HashMap<String, Vec<Package>> = HashMap::new();
+        // Group by family, families in the order they first appear
+        let mut grouped: Vec<(String, Vec<Package>)> = Vec::new();
         for pkg in packages {
-            grouped
-                .entry(pkg.name.clone())
-                .or_default()
-                .push(pkg.clone());
+            match grouped.iter_mut().find(|(family, _)| *family == pkg.name) {
+                Some((_, pkgs)) => pkgs.push(pkg.clone()),
+                None => grouped.push((pkg.name.clone(), vec![pkg.clone()])),
+            }
         }
 
         let mut result = Vec::new();
-- 
2.43.0


From 9a7af80878f5c79d6d8483396b4c6fb38d9b5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 36/59] fix: a stored per-family orderer reads back

---
 crates/rez-next-package/src/package_order.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/rez-next-package/src/package_order.rs b/crates/rez-next-package/src/package_order.rs
index 9c1ef79..0894491 100644
--- a/crates/rez-next-package/src/package_order.rs
+++ b/crates/rez-next-package/src/package_order.rs
@@ -469,6 +469,17 @@ pub fn from_pod(data: &serde_json::Value) -> Option<Box<dyn PackageOrder>> {
                 packages,
             )))
         }
+        "per_family" => {
+            let mut order_dict = HashMap::new();
+            for (family, order) in data.get("order_dict")?.as_object()? {
+                order_dict.insert(family.clone(), from_pod(order)?);
+            }
+            let default_order = match data.get("default_order") {
+                None | Some(serde_json::Value::Null) => None,
+                Some(order) => Some(from_pod(order)?),
+            };
+            Some(Box::new(PerFamilyOrder::new(order_dict, default_order)))
+        }
         "soft_timestamp" => {
             let timestamp = data.get("timestamp")?.as_i64()?;
             let rank = data.get("rank").and_then(|r| r.as_i64()).unwrap_or(0) as i32;
-- 
2.43.0


From 9f0acda0c654af55e396dc69dabcd3e002f012be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:42 +0000
Subject: [PATCH 37/59] fix: an excluded end point stays excluded when testing
 whether ranges intersect

---
 crates/rez-next-version/src/range/satisfiability.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-version/src/range/satisfiability.rs b/crates/rez-next-version/src/range/satisfiability.rs
index 5b85147..dc521a2 100644
--- a/crates/rez-next-version/src/range/satisfiability.rs
+++ b/crates/rez-next-version/src/range/satisfiability.rs
@@ -141,8 +141,8 @@ pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
         match bound {
             Bound::Ge(v) => match lower {
                 None => lower = Some((v, true)),
-                Some((lv, linc)) => {
-                    if v > lv || (v == lv && !linc) {
+                Some((lv, _)) => {
+                    if v > lv {
                         lower = Some((v, true));
                     }
                 }
@@ -157,8 +157,8 @@ pub(super) fn bound_sets_intersect(a: &BoundSet, b: &BoundSet) -> bool {
             },
             Bound::Le(v) => match upper {
                 None => upper = Some((v, true)),
-                Some((uv, uinc)) => {
-                    if v < uv || (v == uv && !uinc) {
+                Some((uv, _)) => {
+                    if v < uv {
                         upper = Some((v, true));
                     }
                 }
-- 
2.43.0


From 081f54c9bf1b91c4bd12f0fe92b07954c87a8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:42 +0000
Subject: [PATCH 38/59] fix: text in a saved package.py is quoted as Python
 reads it

---
 .../src/serialization/save.rs                 | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index b060c3f..ea2239e 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -267,20 +267,20 @@ impl PackageSaver {
             content.push_str("# Do not edit manually\n\n");
         }
 
-        content.push_str(&format!("name = \"{}\"\n", package.name));
+        content.push_str(&format!("name = {}\n", python_string(&package.name)));
 
         if let Some(ref version) = package.version {
-            content.push_str(&format!("version = \"{}\"\n", version.as_str()));
+            content.push_str(&format!("version = {}\n", python_string(version.as_str())));
         }
 
         if let Some(ref description) = package.description {
-            content.push_str(&format!("description = \"{}\"\n", description));
+            content.push_str(&format!("description = {}\n", python_string(description)));
         }
 
         if !package.authors.is_empty() {
             content.push_str("authors = [\n");
             for author in &package.authors {
-                content.push_str(&format!("    \"{}\",\n", author));
+                content.push_str(&format!("    {},\n", python_string(author)));
             }
             content.push_str("]\n");
         }
@@ -288,7 +288,7 @@ impl PackageSaver {
         if !package.requires.is_empty() {
             content.push_str("requires = [\n");
             for req in &package.requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+                content.push_str(&format!("    {},\n", python_string(req)));
             }
             content.push_str("]\n");
         }
@@ -296,7 +296,7 @@ impl PackageSaver {
         if !package.build_requires.is_empty() {
             content.push_str("build_requires = [\n");
             for req in &package.build_requires {
-                content.push_str(&format!("    \"{}\",\n", req));
+                content.push_str(&format!("    {},\n", python_string(req)));
             }
             content.push_str("]\n");
         }
@@ -309,7 +309,7 @@ impl PackageSaver {
                     if i > 0 {
                         content.push_str(", ");
                     }
-                    content.push_str(&format!("\"{}\"", req));
+                    content.push_str(&python_string(req));
                 }
                 content.push_str("],\n");
             }
@@ -319,7 +319,7 @@ impl PackageSaver {
         if !package.tools.is_empty() {
             content.push_str("tools = [\n");
             for tool in &package.tools {
-                content.push_str(&format!("    \"{}\",\n", tool));
+                content.push_str(&format!("    {},\n", python_string(tool)));
             }
             content.push_str("]\n");
         }
@@ -425,6 +425,25 @@ impl PackageSaver {
     }
 }
 
+/// Quote text as a Python string literal
+fn python_string(text: &str) -> String {
+    let mut literal = String::with_capacity(text.len() + 2);
+    literal.push('"');
+    for c in text.chars() {
+        match c {
+            '"' => literal.push_str("\\\""),
+            '\\' => literal.push_str("\\\\"),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c if c.is_control() => literal.push_str(&format!("\\u{:04x}", c as u32)),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 /// Convert YAML value to JSON value
 pub fn yaml_to_json_value(yaml_value: serde_yaml::Value) -> serde_json::Value {
     match yaml_value {
-- 
2.43.0


From c6eb6430f712c82a3e987eaf25de512f04c7e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:42 +0000
Subject: [PATCH 39/59] fix: pretty YAML keeps nested lists and multi-line
 items intact

---
 crates/rez-next-package/src/serialization/save.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index ea2239e..5ebdf1d 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -231,8 +231,15 @@ impl PackageSaver {
 
         let mut output = String::with_capacity(raw.len() + 64);
         output.push_str("# ---\n");
+        // Indent sequences under their key, with everything that belongs to their items
+        let mut in_sequence = false;
         for line in raw.lines() {
             if line.starts_with("- ") {
+                in_sequence = true;
+            } else if !line.is_empty() && !line.starts_with(' ') {
+                in_sequence = false;
+            }
+            if in_sequence && !line.is_empty() {
                 output.push_str("  ");
             }
             output.push_str(line);
-- 
2.43.0


From 45f6ddd392ecc016acada66c8a1ec9d9142664f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:42 +0000
Subject: [PATCH 40/59] fix: package definitions saved with metadata can be
 loaded again

---
 crates/rez-next-package/src/serialization/load.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index b842bc4..1e9c34e 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -121,6 +121,13 @@ impl PackageLoader {
     fn load_from_json_data(
         json_data: HashMap<String, serde_json::Value>,
     ) -> Result<Package, RezCoreError> {
+        // A definition saved with metadata holds the package in its own section
+        if !json_data.contains_key("name")
+            && let Some(serde_json::Value::Object(package)) = json_data.get("package")
+        {
+            return Self::load_from_json_data(package.clone().into_iter().collect());
+        }
+
         let name = json_data
             .get("name")
             .and_then(|v| v.as_str())
-- 
2.43.0


From 59c351207fb5d69995581375f6e5e5efed112203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:42 +0000
Subject: [PATCH 41/59] fix: a package version that is not text is refused
 instead of dropped

---
 crates/rez-next-package/src/serialization/load.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index 1e9c34e..a4603eb 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -139,8 +139,14 @@ impl PackageLoader {
         let mut package = Package::new(name);
 
         if let Some(version_value) = json_data.get("version")
-            && let Some(version_str) = version_value.as_str()
+            && !version_value.is_null()
         {
+            let version_str = version_value.as_str().ok_or_else(|| {
+                RezCoreError::PackageParse(format!(
+                    "Invalid version: {} is not text (quote it)",
+                    version_value
+                ))
+            })?;
             let version = Version::parse(version_str)
                 .map_err(|e| RezCoreError::PackageParse(format!("Invalid version: {}", e)))?;
             package.version = Some(version);
-- 
2.43.0


From 0d83e9e125c42ff56081bb1f981c3f75047aac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:09 +0000
Subject: [PATCH 42/59] fix: package.yaml and package.json keep their commands,
 help and build settings when loaded

---
 .../rez-next-package/src/serialization/load.rs   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/load.rs b/crates/rez-next-package/src/serialization/load.rs
index a4603eb..eef51dd 100644
--- a/crates/rez-next-package/src/serialization/load.rs
+++ b/crates/rez-next-package/src/serialization/load.rs
@@ -224,6 +224,22 @@ impl PackageLoader {
                 .collect();
         }
 
+        let text = |field: &str| {
+            let value = json_data.get(field).and_then(|v| v.as_str());
+            value.map(|s| s.to_string())
+        };
+        package.commands = text("commands");
+        package.commands_function = package.commands.clone();
+        package.pre_commands = text("pre_commands");
+        package.post_commands = text("post_commands");
+        package.pre_test_commands = text("pre_test_commands");
+        package.pre_build_commands = text("pre_build_commands");
+        package.build_command = text("build_command");
+        package.build_system = text("build_system");
+        package.requires_rez_version = text("requires_rez_version");
+        package.uuid = text("uuid");
+        package.help = text("help");
+
         package.validate()?;
 
         Ok(package)
-- 
2.43.0


From 57a669a31b770411e52e3945c7e802c4b9a62c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:09 +0000
Subject: [PATCH 43/59] fix: a saved package.py keeps commands, help and build
 settings

---
 .../src/serialization/save.rs                 | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/rez-next-package/src/serialization/save.rs b/crates/rez-next-package/src/serialization/save.rs
index 5ebdf1d..046a9ed 100644
--- a/crates/rez-next-package/src/serialization/save.rs
+++ b/crates/rez-next-package/src/serialization/save.rs
@@ -308,6 +308,14 @@ impl PackageSaver {
             content.push_str("]\n");
         }
 
+        if !package.private_build_requires.is_empty() {
+            content.push_str("private_build_requires = [\n");
+            for req in &package.private_build_requires {
+                content.push_str(&format!("    {},\n", python_string(req)));
+            }
+            content.push_str("]\n");
+        }
+
         if !package.variants.is_empty() {
             content.push_str("variants = [\n");
             for variant in &package.variants {
@@ -331,6 +339,23 @@ impl PackageSaver {
             content.push_str("]\n");
         }
 
+        for (field, value) in [
+            ("help", &package.help),
+            ("requires_rez_version", &package.requires_rez_version),
+            ("uuid", &package.uuid),
+            ("build_system", &package.build_system),
+            ("build_command", &package.build_command),
+            ("pre_build_commands", &package.pre_build_commands),
+            ("pre_commands", &package.pre_commands),
+            ("commands", &package.commands),
+            ("post_commands", &package.post_commands),
+            ("pre_test_commands", &package.pre_test_commands),
+        ] {
+            if let Some(text) = value {
+                content.push_str(&format!("{} = {}\n", field, python_string(text)));
+            }
+        }
+
         Ok(content)
     }
 
-- 
2.43.0


From 6f7a91bb85fe408a3e64d6f773c35dc89681927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:40 +0000
Subject: [PATCH 44/59] fix: prefixed suite tools never replace another tool

---
 crates/rez-next-suites/src/suite.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..43979ef 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -175,7 +175,10 @@ impl Suite {
             // Generate tool entries for this context
             // Since we don't have actual resolved contexts here (that would require async),
             // we use the alias map and any known tools
-            for (alias, original) in &ctx.tool_aliases {
+            // Sorted, so that the result does not depend on the order of the map.
+            let mut aliases: Vec<_> = ctx.tool_aliases.iter().collect();
+            aliases.sort();
+            for (alias, original) in aliases {
                 if !ctx.is_tool_visible(original) {
                     continue;
                 }
@@ -213,6 +216,12 @@ impl Suite {
                         ToolConflictMode::Prefix => {
                             // Rename with context prefix
                             let prefixed_name = format!("{}_{}", ctx.name, alias);
+                            if let Some(taken) = tools.get(&prefixed_name) {
+                                return Err(SuiteError::ToolConflict {
+                                    tool: prefixed_name.clone(),
+                                    contexts: format!("{}, {}", taken.context_name, ctx.name),
+                                });
+                            }
                             let prefixed_tool = SuiteTool::new(
                                 prefixed_name.clone(),
                                 original.clone(),
-- 
2.43.0


From 7fb59ae60ddc2a86ce4a4ccb9e31f9302e4af851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:33 +0000
Subject: [PATCH 45/59] fix: search finds the packages that are there, versions
 in order

---
 crates/rez-next-search/src/searcher.rs | 74 +++++++++++++-------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/crates/rez-next-search/src/searcher.rs b/crates/rez-next-search/src/searcher.rs
index 2192aec..741e2c4 100644
--- a/crates/rez-next-search/src/searcher.rs
+++ b/crates/rez-next-search/src/searcher.rs
@@ -84,7 +84,7 @@ impl PackageSearcher {
         let mut result_set = SearchResultSet::new();
         result_set.repos_searched = pkg_paths.len();
 
-        for (idx, repo_path) in pkg_paths.iter().enumerate() {
+        'repos: for (idx, repo_path) in pkg_paths.iter().enumerate() {
             if !repo_path.exists() {
                 continue;
             }
@@ -95,50 +95,53 @@ impl PackageSearcher {
                 format!("repo_{}", idx),
             )));
 
-            // Use empty string to get all packages from this repository
-            let all_packages = match repo_manager.find_packages("").await {
-                Ok(pkgs) => pkgs,
+            // An empty name matches no package, so look up every family by its own name.
+            // The names are sorted, which makes the limit deterministic.
+            let names = match repo_manager.list_packages().await {
+                Ok(names) => names,
                 Err(_) => continue,
             };
 
-            result_set.total_scanned += all_packages.len();
+            let range = self
+                .options
+                .filter
+                .version_range
+                .as_ref()
+                .and_then(|range_str| rez_next_version::VersionRange::parse(range_str).ok());
+            let repo_path_str = repo_path.to_string_lossy().to_string();
 
-            // Group by family, applying name filter
-            let mut family_map: std::collections::HashMap<String, Vec<String>> =
-                std::collections::HashMap::new();
+            for name in names {
+                let packages = match repo_manager.find_packages(&name).await {
+                    Ok(pkgs) => pkgs,
+                    Err(_) => continue,
+                };
+                result_set.total_scanned += packages.len();
 
-            for pkg in &all_packages {
-                if !self.options.filter.matches_name(&pkg.name) {
+                if !self.options.filter.matches_name(&name) {
                     continue;
                 }
 
-                // Apply version range filter
-                if let Some(ref range_str) = self.options.filter.version_range
-                    && let Some(ref ver) = pkg.version
-                    && let Ok(range) = rez_next_version::VersionRange::parse(range_str)
-                    && !range.contains(ver)
-                {
+                // Packages come latest first; results list versions in ascending order.
+                let mut versions: Vec<String> = packages
+                    .iter()
+                    .rev()
+                    .filter(|pkg| match (&range, &pkg.version) {
+                        (Some(range), Some(ver)) => range.contains(ver),
+                        _ => true,
+                    })
+                    .map(|pkg| {
+                        pkg.version
+                            .as_ref()
+                            .map(|v| v.as_str())
+                            .unwrap_or("unknown")
+                            .to_string()
+                    })
+                    .collect();
+                versions.dedup();
+                if versions.is_empty() {
                     continue;
                 }
 
-                let ver_str = pkg
-                    .version
-                    .as_ref()
-                    .map(|v| v.as_str())
-                    .unwrap_or("unknown")
-                    .to_string();
-                family_map
-                    .entry(pkg.name.clone())
-                    .or_default()
-                    .push(ver_str);
-            }
-
-            // Convert to SearchResult
-            let repo_path_str = repo_path.to_string_lossy().to_string();
-            for (name, mut versions) in family_map {
-                versions.sort();
-                versions.dedup();
-
                 let result = match self.options.scope {
                     SearchScope::LatestOnly => {
                         let latest = versions.last().cloned().into_iter().collect();
@@ -146,12 +149,11 @@ impl PackageSearcher {
                     }
                     _ => SearchResult::new(name, versions, repo_path_str.clone()),
                 };
-
                 result_set.add(result);
 
                 // Respect limit
                 if self.options.filter.limit > 0 && result_set.len() >= self.options.filter.limit {
-                    return result_set;
+                    break 'repos;
                 }
             }
         }
-- 
2.43.0


From cded2247b36d03c2a819954646e691bc80958686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:33 +0000
Subject: [PATCH 46/59] fix: a family with an unreadable definition is reported
 however often it is asked for

---
 crates/rez-next-repository/src/simple_repository.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-repository/src/simple_repository.rs b/crates/rez-next-repository/src/simple_repository.rs
index 348fcfe..4d72c34 100644
--- a/crates/rez-next-repository/src/simple_repository.rs
+++ b/crates/rez-next-repository/src/simple_repository.rs
@@ -141,6 +141,11 @@ impl SimpleRepository {
 #[async_trait::async_trait]
 impl PackageRepository for SimpleRepository {
     async fn find_packages(&self, name: &str) -> Result<Vec<Arc<Package>>, RezCoreError> {
+        // A family with an unreadable definition is reported, whether or not it was
+        // scanned before.
+        if let Some(error) = self.package_errors.read().await.get(name) {
+            return Err(RezCoreError::Repository(error.clone()));
+        }
         // Check cache first
         {
             let cache = self.package_cache.read().await;
@@ -148,10 +153,6 @@ impl PackageRepository for SimpleRepository {
                 return Ok(packages.clone());
             }
         }
-        if let Some(error) = self.package_errors.read().await.get(name) {
-            return Err(RezCoreError::Repository(error.clone()));
-        }
-
         // If not in cache, scan and try again
         self.scan().await?;
 
-- 
2.43.0


From c986ef4900a0a0475309cbb88beb8ef89cfcfc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:47 +0000
Subject: [PATCH 47/59] fix: reverse dependencies and plugins look at the
 latest version and at whole names

---
 .../rez-next-repository/src/package_search.rs | 89 +++++++------------
 1 file changed, 32 insertions(+), 57 deletions(-)

diff --git a/crates/rez-next-repository/src/package_search.rs b/crates/rez-next-repository/src/package_search.rs
index a4d5c43..ac3ef4e 100644
--- a/crates/rez-next-repository/src/package_search.rs
+++ b/crates/rez-next-repository/src/package_search.rs
@@ -10,6 +10,7 @@
 use std::collections::{HashMap, HashSet};
 use std::path::Path;
 
+use rez_next_package::PackageRequirement;
 use rez_next_package::package::Package;
 
 /// Result of a resource search.
@@ -106,30 +107,21 @@ pub fn get_plugins(package_name: &str, paths: Option<Vec<String>>) -> Vec<String
 
 /// Check if a package family is a plugin for the given package.
 fn is_plugin_for(family_path: &Path, target_package: &str) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check plugin_for field (direct field on Package struct)
-                for plugin in &pkg.plugin_for {
-                    if plugin == target_package {
-                        return true;
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
+    latest_package(family_path)
+        .is_some_and(|pkg| pkg.plugin_for.iter().any(|plugin| plugin == target_package))
+}
 
-    false
+/// Load the latest version of a package family (or its unversioned package).
+fn latest_package(family_path: &Path) -> Option<Package> {
+    let versions = std::fs::read_dir(family_path)
+        .ok()?
+        .flatten()
+        .map(|entry| entry.path())
+        .filter(|path| path.is_dir())
+        .filter_map(|path| load_package_from_dir(&path));
+    versions
+        .max_by(|a, b| a.version.cmp(&b.version))
+        .or_else(|| load_package_from_dir(family_path))
 }
 
 /// Load a package from a version directory.
@@ -259,45 +251,28 @@ fn find_dependents(
     dependents
 }
 
-/// Check if a package depends on a given package.
+/// Check if the latest version of a package depends on a given package.
 fn package_depends_on(
     family_path: &Path,
     target_package: &str,
     include_build_requires: bool,
 ) -> bool {
-    // Check version directories
-    if let Ok(entries) = std::fs::read_dir(family_path) {
-        for entry in entries.flatten() {
-            let version_path = entry.path();
-            if !version_path.is_dir() {
-                continue;
-            }
-
-            // Try to load package from this version
-            if let Some(pkg) = load_package_from_dir(&version_path) {
-                // Check requires (direct field on Package struct)
-                for req in &pkg.requires {
-                    if req.contains(target_package) {
-                        return true;
-                    }
-                }
-
-                // Check build_requires if requested (direct field on Package struct)
-                if include_build_requires {
-                    for req in &pkg.build_requires {
-                        if req.contains(target_package) {
-                            return true;
-                        }
-                    }
-                }
-            }
-
-            // Only check the first version
-            break;
-        }
-    }
-
-    false
+    let Some(pkg) = latest_package(family_path) else {
+        return false;
+    };
+    let build_requires: &[String] = if include_build_requires {
+        &pkg.build_requires
+    } else {
+        &[]
+    };
+    pkg.requires
+        .iter()
+        .chain(pkg.variants.iter().flatten())
+        .chain(build_requires)
+        // A conflict or weak requirement alone does not make it a dependency.
+        .filter(|req| !req.starts_with('!') && !req.starts_with('~'))
+        .filter_map(|req| PackageRequirement::parse(req).ok())
+        .any(|req| req.name == target_package)
 }
 
 /// Get default package paths from environment or common locations.
-- 
2.43.0


From 1aac8720f1f16348eeb7242c3937c58f0435d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:47 +0000
Subject: [PATCH 48/59] fix: only * and ? are special in a package name pattern

---
 crates/rez-next-repository/src/filesystem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-repository/src/filesystem.rs b/crates/rez-next-repository/src/filesystem.rs
index 5e6d6ff..a469b12 100644
--- a/crates/rez-next-repository/src/filesystem.rs
+++ b/crates/rez-next-repository/src/filesystem.rs
@@ -460,7 +460,9 @@ impl FileSystemRepository {
         }
 
         // Simple wildcard matching (supports * and ?)
-        let regex_pattern = pattern.replace("*", ".*").replace("?", ".");
+        let regex_pattern = regex::escape(pattern)
+            .replace(r"\*", ".*")
+            .replace(r"\?", ".");
 
         if let Ok(regex) = regex::Regex::new(&format!("^{}$", regex_pattern)) {
             regex.is_match(text)
-- 
2.43.0


From 573b414efec0ea6fa1e90028d89e3135117742ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:46 +0000
Subject: [PATCH 49/59] fix: the dry run of removing ignored packages counts
 only packages that are there

---
 .../src/package_repository/filesystem.rs                   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-repository/src/package_repository/filesystem.rs b/crates/rez-next-repository/src/package_repository/filesystem.rs
index 7553fef..5a4617b 100644
--- a/crates/rez-next-repository/src/package_repository/filesystem.rs
+++ b/crates/rez-next-repository/src/package_repository/filesystem.rs
@@ -528,7 +528,12 @@ impl PackageRepository for FilesystemPackageRepository {
                     "removing ignored package"
                 );
             }
-            if dry_run || self.remove_package(&name, Some(&version))? {
+            let done = if dry_run {
+                self.version_path(&name, &version)?.is_dir()
+            } else {
+                self.remove_package(&name, Some(&version))?
+            };
+            if done {
                 removed += 1;
             }
         }
-- 
2.43.0


From 64cab1367f55e081d33691c283c69d0a55d1c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:46 +0000
Subject: [PATCH 50/59] fix: the package cache notices changes within a second
 and survives a torn entry

---
 crates/rez-next-package-cache/src/lib.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/rez-next-package-cache/src/lib.rs b/crates/rez-next-package-cache/src/lib.rs
index 3c44921..91c5f1f 100644
--- a/crates/rez-next-package-cache/src/lib.rs
+++ b/crates/rez-next-package-cache/src/lib.rs
@@ -58,11 +58,8 @@ impl CachedPackage {
     /// 1. The source file hasn't been modified (mtime matches)
     /// 2. The cache entry hasn't expired (cached_at + ttl > now)
     pub fn is_valid(&self, source_mtime: SystemTime) -> bool {
-        // Check if source file has been modified
-        // Use duration_since to compare two SystemTime values
-        let mtime_changed = source_mtime
-            .duration_since(self.mtime)
-            .is_ok_and(|dur| dur.as_secs() > 0)
+        // Check if source file has been modified: any later time, or one at least a second earlier
+        let mtime_changed = source_mtime > self.mtime
             || self
                 .mtime
                 .duration_since(source_mtime)
@@ -254,10 +251,9 @@ impl CacheBackend for FileCache {
         let cache_file = self.cache_file_path(path);
         if cache_file.exists() {
             let content = std::fs::read_to_string(&cache_file)?;
-            let cached: CachedPackage = serde_json::from_str(&content)?;
-
-            // Check if entry is still valid
-            if let Ok(metadata) = std::fs::metadata(path)
+            // An entry that cannot be read (a write was interrupted) counts as invalid
+            if let Ok(cached) = serde_json::from_str::<CachedPackage>(&content)
+                && let Ok(metadata) = std::fs::metadata(path)
                 && let Ok(mtime) = metadata.modified()
                 && cached.is_valid(mtime)
             {
-- 
2.43.0


From ed1db7d93db503ee7cdf27b5376c3f66cab824a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:28 +0000
Subject: [PATCH 51/59] fix: keep the family of filter rules when a filter is
 stored

---
 crates/rez-next-package/src/filter.rs | 62 ++++++++++++---------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/crates/rez-next-package/src/filter.rs b/crates/rez-next-package/src/filter.rs
index e615396..26d9c71 100644
--- a/crates/rez-next-package/src/filter.rs
+++ b/crates/rez-next-package/src/filter.rs
@@ -389,24 +389,18 @@ impl PackageFilter {
     pub fn to_pod(&self) -> HashMap<String, Vec<String>> {
         let mut pod = HashMap::new();
 
-        let excludes: Vec<String> = self
-            .excludes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !excludes.is_empty() {
-            pod.insert("excludes".to_string(), excludes);
-        }
-
-        let includes: Vec<String> = self
-            .includes
-            .values()
-            .flatten()
-            .map(|r| r.to_pod())
-            .collect();
-        if !includes.is_empty() {
-            pod.insert("includes".to_string(), includes);
+        // Rules bound to a family are stored as "excludes:family" or "includes:family"
+        for (kind, rules_by_family) in [("excludes", &self.excludes), ("includes", &self.includes)]
+        {
+            for (family, rules) in rules_by_family {
+                let key = match family {
+                    Some(family) => format!("{kind}:{family}"),
+                    None => kind.to_string(),
+                };
+                if !rules.is_empty() {
+                    pod.insert(key, rules.iter().map(|r| r.to_pod()).collect());
+                }
+            }
         }
 
         pod
@@ -416,22 +410,22 @@ impl PackageFilter {
     pub fn from_pod(pod: &HashMap<String, Vec<String>>) -> Result<Self, String> {
         let mut filter = PackageFilter::new();
 
-        if let Some(excludes) = pod.get("excludes") {
-            for rule_str in excludes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_exclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse exclusion rule: {}", rule_str));
-                }
-            }
-        }
-
-        if let Some(includes) = pod.get("includes") {
-            for rule_str in includes {
-                if let Some(rule) = parse_rule(rule_str) {
-                    filter.add_inclusion(None, rule);
-                } else {
-                    return Err(format!("Failed to parse inclusion rule: {}", rule_str));
+        for (key, rules) in pod {
+            let (kind, family) = match key.split_once(':') {
+                Some((kind, family)) => (kind, Some(family)),
+                None => (key.as_str(), None),
+            };
+            for rule_str in rules {
+                match (kind, parse_rule(rule_str)) {
+                    ("excludes", Some(rule)) => filter.add_exclusion(family, rule),
+                    ("includes", Some(rule)) => filter.add_inclusion(family, rule),
+                    ("excludes", None) => {
+                        return Err(format!("Failed to parse exclusion rule: {}", rule_str));
+                    }
+                    ("includes", None) => {
+                        return Err(format!("Failed to parse inclusion rule: {}", rule_str));
+                    }
+                    _ => {}
                 }
             }
         }
-- 
2.43.0


From a21f4d86ff4e49c82846188d87354b374222a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:28 +0000
Subject: [PATCH 52/59] fix: do not let a package's commands see the previous
 package's version and root

---
 crates/rez-next-rex/src/executor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 1225458..28a4157 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -35,6 +35,11 @@ impl RexExecutor {
         root: Option<&str>,
         version: Option<&str>,
     ) -> Result<RexEnvironment, RezCoreError> {
+        // `this` is the package being run, not an earlier one
+        for key in ["root", "version", "version.major", "version.minor", "version.patch"] {
+            self.context_vars.remove(&format!("this.{key}"));
+        }
+
         // Set default context vars
         if let Some(root) = root {
             self.context_vars
-- 
2.43.0


From 8a4f209933fda01b292dbcfbc9952c560e655522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:28 +0000
Subject: [PATCH 53/59] fix: an excluded platform rules a requirement out
 wherever it is listed

---
 crates/rez-next-package/src/requirement/types.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 02f2d72..9ace208 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -145,6 +145,8 @@ impl Requirement {
             return true;
         }
 
+        // Any excluded platform rules the requirement out, wherever it is listed.
+        let mut wanted = false;
         for condition in &self.platform_conditions {
             let platform_match = condition.platform == platform;
             let arch_match = condition
@@ -154,16 +156,15 @@ impl Requirement {
 
             let condition_satisfied = platform_match && arch_match;
 
-            if condition.negate {
-                if condition_satisfied {
+            if condition_satisfied {
+                if condition.negate {
                     return false;
                 }
-            } else if condition_satisfied {
-                return true;
+                wanted = true;
             }
         }
 
-        self.platform_conditions.iter().all(|c| c.negate)
+        wanted || self.platform_conditions.iter().all(|c| c.negate)
     }
 
     /// Check if environment conditions are satisfied
-- 
2.43.0


From ca685c2cd7d452f363210a930f7012f0b2e603ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:48 +0000
Subject: [PATCH 54/59] fix: evaluate package.py comparisons, and/or and
 arithmetic as Python does

---
 .../src/python_ast_parser/eval.rs             | 68 ++++++++++++-------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 297fe1e..7c62987 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -6,6 +6,9 @@ use rez_next_common::RezCoreError;
 use rustpython_ast::{BoolOp, CmpOp, Constant, Expr, Operator, UnaryOp};
 use std::collections::HashMap;
 
+/// Longest string a `"text" * count` expression may produce.
+const MAX_REPEATED_LEN: usize = 1 << 20;
+
 impl PythonAstParser {
     /// Evaluate a Python expression to a value
     pub(super) fn evaluate_expression(&self, expr: &Expr) -> Result<PythonValue, RezCoreError> {
@@ -81,7 +84,7 @@ impl PythonAstParser {
                 Ok(PythonValue::String(format!("{}{}", l, r)))
             }
             (PythonValue::Integer(l), Operator::Add, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l + r))
+                Self::checked_integer(l.checked_add(*r))
             }
             (PythonValue::Float(l), Operator::Add, PythonValue::Float(r)) => {
                 Ok(PythonValue::Float(l + r))
@@ -92,13 +95,20 @@ impl PythonAstParser {
                 Ok(PythonValue::List(result))
             }
             (PythonValue::Integer(l), Operator::Sub, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l - r))
+                Self::checked_integer(l.checked_sub(*r))
             }
             (PythonValue::Integer(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::Integer(l * r))
+                Self::checked_integer(l.checked_mul(*r))
             }
             (PythonValue::String(l), Operator::Mult, PythonValue::Integer(r)) => {
-                Ok(PythonValue::String(l.repeat(*r as usize)))
+                // A negative count gives the empty string in Python.
+                let count = usize::try_from(*r).unwrap_or(0);
+                if l.len().saturating_mul(count) > MAX_REPEATED_LEN {
+                    return Err(RezCoreError::PackageParse(
+                        "Repeated string too long".to_string(),
+                    ));
+                }
+                Ok(PythonValue::String(l.repeat(count)))
             }
             _ => Err(RezCoreError::PackageParse(format!(
                 "Unsupported binary operation: {left:?} {:?} {right:?}",
@@ -117,7 +127,7 @@ impl PythonAstParser {
         match (&unaryop.op, &operand) {
             (UnaryOp::Not, PythonValue::Boolean(b)) => Ok(PythonValue::Boolean(!b)),
             (UnaryOp::UAdd, PythonValue::Integer(i)) => Ok(PythonValue::Integer(*i)),
-            (UnaryOp::USub, PythonValue::Integer(i)) => Ok(PythonValue::Integer(-i)),
+            (UnaryOp::USub, PythonValue::Integer(i)) => Self::checked_integer(i.checked_neg()),
             (UnaryOp::UAdd, PythonValue::Float(f)) => Ok(PythonValue::Float(*f)),
             (UnaryOp::USub, PythonValue::Float(f)) => Ok(PythonValue::Float(-f)),
             _ => Err(RezCoreError::PackageParse(format!(
@@ -132,7 +142,7 @@ impl PythonAstParser {
         &self,
         compare: &rustpython_ast::ExprCompare,
     ) -> Result<PythonValue, RezCoreError> {
-        let left = self.evaluate_expression(&compare.left)?;
+        let mut left = self.evaluate_expression(&compare.left)?;
 
         if compare.ops.len() != compare.comparators.len() {
             return Err(RezCoreError::PackageParse(
@@ -160,6 +170,7 @@ impl PythonAstParser {
             if !result {
                 return Ok(PythonValue::Boolean(false));
             }
+            left = right;
         }
 
         Ok(PythonValue::Boolean(true))
@@ -170,26 +181,35 @@ impl PythonAstParser {
         &self,
         boolop: &rustpython_ast::ExprBoolOp,
     ) -> Result<PythonValue, RezCoreError> {
-        match &boolop.op {
-            BoolOp::And => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(false) = result {
-                        return Ok(PythonValue::Boolean(false));
-                    }
-                }
-                Ok(PythonValue::Boolean(true))
-            }
-            BoolOp::Or => {
-                for value in &boolop.values {
-                    let result = self.evaluate_expression(value)?;
-                    if let PythonValue::Boolean(true) = result {
-                        return Ok(PythonValue::Boolean(true));
-                    }
-                }
-                Ok(PythonValue::Boolean(false))
+        // Python yields the operand that decides the result, not a boolean.
+        let stop_at = matches!(boolop.op, BoolOp::Or);
+        let mut result = PythonValue::None;
+        for value in &boolop.values {
+            result = self.evaluate_expression(value)?;
+            if Self::is_truthy(&result) == stop_at {
+                break;
             }
         }
+        Ok(result)
+    }
+
+    /// The truth value Python gives `value`.
+    fn is_truthy(value: &PythonValue) -> bool {
+        match value {
+            PythonValue::None => false,
+            PythonValue::Boolean(b) => *b,
+            PythonValue::Integer(i) => *i != 0,
+            PythonValue::Float(f) => *f != 0.0,
+            PythonValue::String(s) => !s.is_empty(),
+            PythonValue::List(l) => !l.is_empty(),
+            PythonValue::Dict(d) => !d.is_empty(),
+        }
+    }
+
+    fn checked_integer(value: Option<i64>) -> Result<PythonValue, RezCoreError> {
+        value
+            .map(PythonValue::Integer)
+            .ok_or_else(|| RezCoreError::PackageParse("Integer too large".to_string()))
     }
 
     /// Evaluate list expressions
-- 
2.43.0


From 682b72797c966007924d9777af44d5dd28d65b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:47 +0000
Subject: [PATCH 55/59] fix: expand str.format in package.py in one pass and
 refuse fields it cannot fill

---
 .../src/python_ast_parser/eval.rs             | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 7c62987..541f7fe 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -283,6 +283,7 @@ impl PythonAstParser {
             }
 
             if attribute.attr.as_str() == "format"
+                && call.keywords.is_empty()
                 && let PythonValue::String(value) = self.evaluate_expression(&attribute.value)?
             {
                 return self.format_string(value, &call.args);
@@ -298,11 +299,9 @@ impl PythonAstParser {
         value: String,
         arguments: &[Expr],
     ) -> Result<PythonValue, RezCoreError> {
-        const OPEN_BRACE: &str = "\u{e000}";
-        const CLOSE_BRACE: &str = "\u{e001}";
-        let mut formatted = value.replace("{{", OPEN_BRACE).replace("}}", CLOSE_BRACE);
-        for (index, argument) in arguments.iter().enumerate() {
-            let value = match self.evaluate_expression(argument)? {
+        let mut values = Vec::with_capacity(arguments.len());
+        for argument in arguments {
+            values.push(match self.evaluate_expression(argument)? {
                 PythonValue::String(value) => value,
                 PythonValue::Integer(value) => value.to_string(),
                 PythonValue::Float(value) => value.to_string(),
@@ -312,12 +311,37 @@ impl PythonAstParser {
                         "Unsupported format argument: {value:?}"
                     )));
                 }
+            });
+        }
+
+        let unsupported =
+            || RezCoreError::PackageParse(format!("Unsupported format string: {value:?}"));
+        let mut formatted = String::with_capacity(value.len());
+        let mut next_auto = 0;
+        let mut rest = value.as_str();
+        while let Some(brace) = rest.find(['{', '}']) {
+            formatted.push_str(&rest[..brace]);
+            let (field, after) = rest[brace..].split_at(1);
+            if let Some(after) = after.strip_prefix(field) {
+                // Doubled braces stand for themselves.
+                formatted.push_str(field);
+                rest = after;
+                continue;
+            }
+            let end = after.find('}').ok_or_else(unsupported)?;
+            let index = match &after[..end] {
+                _ if field == "}" => return Err(unsupported()),
+                "" => {
+                    next_auto += 1;
+                    next_auto - 1
+                }
+                number => number.parse::<usize>().map_err(|_| unsupported())?,
             };
-            formatted = formatted.replace(&format!("{{{index}}}"), &value);
+            formatted.push_str(values.get(index).ok_or_else(unsupported)?);
+            rest = &after[end + 1..];
         }
-        Ok(PythonValue::String(
-            formatted.replace(OPEN_BRACE, "{").replace(CLOSE_BRACE, "}"),
-        ))
+        formatted.push_str(rest);
+        Ok(PythonValue::String(formatted))
     }
 
     /// Evaluate package command context attributes used by Rez package.py files.
-- 
2.43.0


From 4d737f6b1e8ac47bb4e65ec92fc9d4e7e6f848a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:07 +0000
Subject: [PATCH 56/59] fix: turn package.py numbers and booleans into the text
 Python gives them

---
 .../src/python_ast_parser/eval.rs             | 15 ++-----
 .../src/python_ast_parser/extract.rs          | 39 ++++---------------
 .../src/python_ast_parser/types.rs            | 16 ++++++++
 3 files changed, 27 insertions(+), 43 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/eval.rs b/crates/rez-next-package/src/python_ast_parser/eval.rs
index 541f7fe..b014029 100644
--- a/crates/rez-next-package/src/python_ast_parser/eval.rs
+++ b/crates/rez-next-package/src/python_ast_parser/eval.rs
@@ -301,17 +301,10 @@ impl PythonAstParser {
     ) -> Result<PythonValue, RezCoreError> {
         let mut values = Vec::with_capacity(arguments.len());
         for argument in arguments {
-            values.push(match self.evaluate_expression(argument)? {
-                PythonValue::String(value) => value,
-                PythonValue::Integer(value) => value.to_string(),
-                PythonValue::Float(value) => value.to_string(),
-                PythonValue::Boolean(value) => value.to_string(),
-                value => {
-                    return Err(RezCoreError::PackageParse(format!(
-                        "Unsupported format argument: {value:?}"
-                    )));
-                }
-            });
+            let argument = self.evaluate_expression(argument)?;
+            values.push(argument.to_text().ok_or_else(|| {
+                RezCoreError::PackageParse(format!("Unsupported format argument: {argument:?}"))
+            })?);
         }
 
         let unsupported =
diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index f46a868..b15be17 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -9,27 +9,10 @@ use std::collections::HashMap;
 impl PythonAstParser {
     /// Extract a string value from an expression
     pub(super) fn extract_string_value(&self, expr: &Expr) -> Result<String, RezCoreError> {
-        match self.evaluate_expression(expr) {
-            Ok(PythonValue::String(s)) => Ok(s),
-            Ok(PythonValue::Integer(i)) => Ok(i.to_string()),
-            Ok(PythonValue::Float(f)) => Ok(f.to_string()),
-            Ok(PythonValue::Boolean(b)) => Ok(b.to_string()),
-            _ => match expr {
-                Expr::Constant(constant) => match &constant.value {
-                    Constant::Str(s) => Ok(s.clone()),
-                    Constant::Int(i) => Ok(i.to_string()),
-                    Constant::Float(f) => Ok(f.to_string()),
-                    _ => Err(RezCoreError::PackageParse(format!(
-                        "Expected string/number value, got: {:?}",
-                        constant.value
-                    ))),
-                },
-                _ => Err(RezCoreError::PackageParse(format!(
-                    "Expected constant value, got: {:?}",
-                    expr
-                ))),
-            },
-        }
+        let value = self.evaluate_expression(expr)?;
+        value.to_text().ok_or_else(|| {
+            RezCoreError::PackageParse(format!("Expected string/number value, got: {value:?}"))
+        })
     }
 
     /// Extract an optional boolean value from an expression
@@ -82,17 +65,9 @@ impl PythonAstParser {
             Ok(PythonValue::List(list)) => {
                 let mut result = Vec::new();
                 for item in list {
-                    match item {
-                        PythonValue::String(s) => result.push(s),
-                        PythonValue::Integer(i) => result.push(i.to_string()),
-                        PythonValue::Float(f) => result.push(f.to_string()),
-                        PythonValue::Boolean(b) => result.push(b.to_string()),
-                        _ => {
-                            return Err(RezCoreError::PackageParse(
-                                "List contains non-string values".to_string(),
-                            ));
-                        }
-                    }
+                    result.push(item.to_text().ok_or_else(|| {
+                        RezCoreError::PackageParse("List contains non-string values".to_string())
+                    })?);
                 }
                 Ok(result)
             }
diff --git a/crates/rez-next-package/src/python_ast_parser/types.rs b/crates/rez-next-package/src/python_ast_parser/types.rs
index f1a6025..f9e53f1 100644
--- a/crates/rez-next-package/src/python_ast_parser/types.rs
+++ b/crates/rez-next-package/src/python_ast_parser/types.rs
@@ -23,6 +23,22 @@ pub(crate) enum PythonValue {
     None,
 }
 
+impl PythonValue {
+    /// The text Python's `str()` gives for a plain value.
+    pub(crate) fn to_text(&self) -> Option<String> {
+        match self {
+            PythonValue::String(s) => Some(s.clone()),
+            PythonValue::Integer(i) => Some(i.to_string()),
+            // Outside this range Python switches to exponent notation.
+            PythonValue::Float(f) if *f == 0.0 || (1e-4..1e16).contains(&f.abs()) => {
+                Some(format!("{f:?}"))
+            }
+            PythonValue::Boolean(b) => Some(if *b { "True" } else { "False" }.to_string()),
+            _ => None,
+        }
+    }
+}
+
 /// Intermediate data structure for collecting package information during parsing
 #[derive(Debug, Default)]
 pub(crate) struct PackageData {
-- 
2.43.0


From 0e2734d5db8e1b7b66f3f5e8af85e577e125b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:07 +0000
Subject: [PATCH 57/59] fix: refuse package.py integers that do not fit instead
 of truncating them

---
 crates/rez-next-package/src/python_ast_parser/extract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/extract.rs b/crates/rez-next-package/src/python_ast_parser/extract.rs
index b15be17..0f1267c 100644
--- a/crates/rez-next-package/src/python_ast_parser/extract.rs
+++ b/crates/rez-next-package/src/python_ast_parser/extract.rs
@@ -40,7 +40,9 @@ impl PythonAstParser {
     /// Extract an integer value from an expression
     pub(super) fn extract_int_value(&self, expr: &Expr) -> Result<i32, RezCoreError> {
         match self.evaluate_expression(expr) {
-            Ok(PythonValue::Integer(i)) => Ok(i as i32),
+            Ok(PythonValue::Integer(i)) => i32::try_from(i).map_err(|e| {
+                RezCoreError::PackageParse(format!("Integer too large for i32: {}", e))
+            }),
             _ => match expr {
                 Expr::Constant(constant) => match &constant.value {
                     Constant::Int(i) => i.to_string().parse::<i32>().map_err(|e| {
-- 
2.43.0


From c3b37499da8d27fa38e2178662990d53af60c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:58 +0000
Subject: [PATCH 58/59] fix: package.py assignments use the value before the
 assignment and reach every target

---
 .../src/python_ast_parser/mod.rs              | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/mod.rs b/crates/rez-next-package/src/python_ast_parser/mod.rs
index f2253fe..d019cfd 100644
--- a/crates/rez-next-package/src/python_ast_parser/mod.rs
+++ b/crates/rez-next-package/src/python_ast_parser/mod.rs
@@ -61,8 +61,20 @@ impl PythonAstParser {
     ) -> Result<(), RezCoreError> {
         match stmt {
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name_expr)) = assign.targets.first() {
+                let value = self.evaluate_expression(&assign.value)?;
+                let mut names = Vec::with_capacity(assign.targets.len());
+                for target in &assign.targets {
+                    let Expr::Name(name_expr) = target else {
+                        return Err(RezCoreError::PackageParse(format!(
+                            "Unsupported package.py assignment target: {target:?}"
+                        )));
+                    };
                     self.process_assignment(&name_expr.id, &assign.value, package_data)?;
+                    names.push(name_expr.id.to_string());
+                }
+                // Only now: the value may refer to what the names held before.
+                for name in names {
+                    self.context.variables.insert(name, value.clone());
                 }
             }
             Stmt::FunctionDef(func_def) => {
@@ -201,11 +213,6 @@ impl PythonAstParser {
         value: &Expr,
         package_data: &mut PackageData,
     ) -> Result<(), RezCoreError> {
-        let python_value = self.evaluate_expression(value)?;
-        self.context
-            .variables
-            .insert(var_name.to_string(), python_value);
-
         match var_name {
             "name" => {
                 package_data.name = Some(self.extract_string_value(value)?);
-- 
2.43.0


From 3ddffd1e69d566255b3386d5366de51791d079fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:27 +0000
Subject: [PATCH 59/59] fix: refuse package.py commands that cannot be carried
 over instead of dropping or splitting them

---
 .../src/python_ast_parser/commands.rs         | 78 ++++++++++++-------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/crates/rez-next-package/src/python_ast_parser/commands.rs b/crates/rez-next-package/src/python_ast_parser/commands.rs
index 70dbe3e..5d5df2f 100644
--- a/crates/rez-next-package/src/python_ast_parser/commands.rs
+++ b/crates/rez-next-package/src/python_ast_parser/commands.rs
@@ -65,6 +65,18 @@ impl PythonAstParser {
         result
     }
 
+    /// A value that is pasted into a Rex statement. Rex statements end with
+    /// the line, so a line break would start another statement.
+    fn extract_command_value(&self, expr: &Expr) -> Result<String, RezCoreError> {
+        let value = self.extract_string_value(expr)?;
+        if value.contains('\n') {
+            return Err(RezCoreError::PackageParse(format!(
+                "Unsupported line break in command value: {value:?}"
+            )));
+        }
+        Ok(value)
+    }
+
     /// Extract a Rex DSL command string from a single statement.
     ///
     /// Supports:
@@ -101,20 +113,26 @@ impl PythonAstParser {
 
             // Handle `env.VAR = "value"` (attribute assignment shorthand)
             Stmt::Assign(assign) => {
-                if let Some(Expr::Name(name)) = assign.targets.first() {
+                let target = match assign.targets.as_slice() {
+                    [target] => Some(target),
+                    _ => None,
+                };
+                if let Some(Expr::Name(name)) = target {
                     let value = self.evaluate_expression(&assign.value)?;
                     self.context.variables.insert(name.id.to_string(), value);
                     return Ok(None);
                 }
-                if let Some(Expr::Attribute(attr)) = assign.targets.first()
+                if let Some(Expr::Attribute(attr)) = target
                     && let Expr::Name(name_expr) = &*attr.value
                     && name_expr.id.as_str() == "env"
                 {
                     let var_name = attr.attr.as_str();
-                    if let Ok(value) = self.extract_string_value(&assign.value) {
-                        return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
-                    }
+                    let value = self.extract_command_value(&assign.value)?;
+                    return Ok(Some(format!("env.setenv('{}', '{}')", var_name, value)));
                 }
+                return Err(RezCoreError::PackageParse(format!(
+                    "Unsupported command assignment: {stmt:?}"
+                )));
             }
 
             // Handle function calls: env.method(...) and top-level Rex calls
@@ -129,23 +147,23 @@ impl PythonAstParser {
                             match method {
                                 "setenv" if call.args.len() >= 2 => {
                                     if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
+                                        self.extract_command_value(&call.args[0]),
+                                        self.extract_command_value(&call.args[1]),
                                     ) {
                                         return Ok(Some(format!("env.setenv('{}', '{}')", k, v)));
                                     }
                                 }
                                 "unsetenv" => {
                                     if let Some(arg) = call.args.first()
-                                        && let Ok(k) = self.extract_string_value(arg)
+                                        && let Ok(k) = self.extract_command_value(arg)
                                     {
                                         return Ok(Some(format!("env.unsetenv('{}')", k)));
                                     }
                                 }
                                 "prepend_path" if call.args.len() >= 2 => {
                                     if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
+                                        self.extract_command_value(&call.args[0]),
+                                        self.extract_command_value(&call.args[1]),
                                     ) {
                                         return Ok(Some(format!(
                                             "env.prepend_path('{}', '{}')",
@@ -155,8 +173,8 @@ impl PythonAstParser {
                                 }
                                 "append_path" if call.args.len() >= 2 => {
                                     if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
+                                        self.extract_command_value(&call.args[0]),
+                                        self.extract_command_value(&call.args[1]),
                                     ) {
                                         return Ok(Some(format!(
                                             "env.append_path('{}', '{}')",
@@ -166,8 +184,8 @@ impl PythonAstParser {
                                 }
                                 "setenv_if_empty" if call.args.len() >= 2 => {
                                     if let (Ok(k), Ok(v)) = (
-                                        self.extract_string_value(&call.args[0]),
-                                        self.extract_string_value(&call.args[1]),
+                                        self.extract_command_value(&call.args[0]),
+                                        self.extract_command_value(&call.args[1]),
                                     ) {
                                         return Ok(Some(format!(
                                             "env.setenv_if_empty('{}', '{}')",
@@ -187,7 +205,7 @@ impl PythonAstParser {
                             let var_name = env_attr.attr.as_str();
                             let method = attr.attr.as_str();
                             if let Some(arg) = call.args.first()
-                                && let Ok(value) = self.extract_string_value(arg)
+                                && let Ok(value) = self.extract_command_value(arg)
                             {
                                 match method {
                                     "prepend" => {
@@ -222,36 +240,36 @@ impl PythonAstParser {
                         match func_name.id.as_str() {
                             "alias" if call.args.len() >= 2 => {
                                 if let (Ok(name), Ok(cmd)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
+                                    self.extract_command_value(&call.args[0]),
+                                    self.extract_command_value(&call.args[1]),
                                 ) {
                                     return Ok(Some(format!("alias('{}', '{}')", name, cmd)));
                                 }
                             }
                             "command" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(cmd) = self.extract_string_value(arg)
+                                    && let Ok(cmd) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("command('{}')", cmd)));
                                 }
                             }
                             "source" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(path) = self.extract_string_value(arg)
+                                    && let Ok(path) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("source('{}')", path)));
                                 }
                             }
                             "info" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(msg) = self.extract_string_value(arg)
+                                    && let Ok(msg) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("info('{}')", msg)));
                                 }
                             }
                             "error" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(msg) = self.extract_string_value(arg)
+                                    && let Ok(msg) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("error('{}')", msg)));
                                 }
@@ -259,44 +277,44 @@ impl PythonAstParser {
                             "stop" => {
                                 if call.args.is_empty() {
                                     return Ok(Some("stop()".to_string()));
-                                } else if let Ok(msg) = self.extract_string_value(&call.args[0]) {
+                                } else if let Ok(msg) = self.extract_command_value(&call.args[0]) {
                                     return Ok(Some(format!("stop('{}')", msg)));
                                 }
                             }
                             "resetenv" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(var) = self.extract_string_value(arg)
+                                    && let Ok(var) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("resetenv('{}')", var)));
                                 }
                             }
                             "setenv" if call.args.len() >= 2 => {
                                 if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
+                                    self.extract_command_value(&call.args[0]),
+                                    self.extract_command_value(&call.args[1]),
                                 ) {
                                     return Ok(Some(format!("setenv('{}', '{}')", k, v)));
                                 }
                             }
                             "prependenv" if call.args.len() >= 2 => {
                                 if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
+                                    self.extract_command_value(&call.args[0]),
+                                    self.extract_command_value(&call.args[1]),
                                 ) {
                                     return Ok(Some(format!("prependenv('{}', '{}')", k, v)));
                                 }
                             }
                             "appendenv" if call.args.len() >= 2 => {
                                 if let (Ok(k), Ok(v)) = (
-                                    self.extract_string_value(&call.args[0]),
-                                    self.extract_string_value(&call.args[1]),
+                                    self.extract_command_value(&call.args[0]),
+                                    self.extract_command_value(&call.args[1]),
                                 ) {
                                     return Ok(Some(format!("appendenv('{}', '{}')", k, v)));
                                 }
                             }
                             "unsetenv" => {
                                 if let Some(arg) = call.args.first()
-                                    && let Ok(k) = self.extract_string_value(arg)
+                                    && let Ok(k) = self.extract_command_value(arg)
                                 {
                                     return Ok(Some(format!("unsetenv('{}')", k)));
                                 }
-- 
2.43.0

