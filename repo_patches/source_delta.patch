From 0871fa7bce4d7806fd69895faebcc96a28a49451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 01/18] fix: look up directly defined moves by exact match when
 there is no unit move

A definition that only lists e.g. `y2` resolved `y2'` (inverse match) but
reported that `y2` itself does not exist, because the exact-match step
looked up the amount-1 move a second time.
---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From 6a40db529bec5ef4005ef91730c992ca05845372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 02/18] =?UTF-8?q?fix:=20keep=20the=20layer=20prefix=20in?=
 =?UTF-8?q?=20parse=5Fmove!(=E2=80=A6)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`parse_move!("2R")` and `parse_move!("2-3R")` both silently evaluated to `R`.
---
 cubing_macros/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..10122a9 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MoveLayer, MovePrefix, MoveRange};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -29,12 +29,24 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
     match move_string.parse::<Move>() {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(MoveLayer { layer })) => {
+                    quote! { Some(cubing::alg::MovePrefix::from(#layer)) }
+                }
+                Some(MovePrefix::Range(MoveRange {
+                    outer_layer,
+                    inner_layer,
+                })) => {
+                    quote! { Some(cubing::alg::MovePrefix::from((#outer_layer, #inner_layer))) }
+                }
+            };
             let move_amount = r#move.amount;
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From bb1968ebe34c754426d7a45248fca9c66b047959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 03/18] fix: print every parseable move as text that parses
 back to it

`_SLASH_2`, `R_PLUSPLUS_2` etc. parse, but printing them made `Display`
return an error (so `.to_string()` and `alg invert` panicked). `2_SLASH_`
printed as `/`, and `_PLUS_` / `_PLUSPLUS_` printed as unparseable text.
---
 cubing_core/src/alg/move.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..8cfa15c 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -70,18 +70,22 @@ impl<'de> Visitor<'de> for MoveVisitor {
     }
 }
 
+fn strip_family_suffix<'a>(family: &'a str, suffix: &str) -> Option<&'a str> {
+    family
+        .strip_suffix(suffix)
+        .filter(|stripped| !stripped.is_empty())
+}
+
 impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Moves that can't be written using special syntax are written using their internal family name instead.
+        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        if let Some(family) = strip_family_suffix(&self.quantum.family, _PLUS_) {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,12 +99,15 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
-            let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
-            };
+        let pochmann_suffix = match self.amount {
+            1 => Some("++"),
+            -1 => Some("--"),
+            _ => None,
+        };
+        if let (Some(family), Some(suffix)) = (
+            strip_family_suffix(&self.quantum.family, _PLUSPLUS_),
+            pochmann_suffix,
+        ) {
             write!(
                 f,
                 "{}{}",
-- 
2.43.0


From 94bddf23ba9a2ec6c17d1d93e48c913451c0ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 04/18] fix: end a line comment before the closing delimiter of
 its enclosing node

Inverting `[R: // comment\nU]` printed `[R: U'\n// comment]`, whose closing
bracket is swallowed by the comment, so the text could not be parsed again.
---
 cubing_core/src/alg/alg.rs        | 12 ++++++++++++
 cubing_core/src/alg/commutator.rs |  6 +++++-
 cubing_core/src/alg/conjugate.rs  |  6 +++++-
 cubing_core/src/alg/grouping.rs   |  2 +-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..c4a4e60 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -20,6 +20,18 @@ impl Alg {
     }
 }
 
+impl Alg {
+    /// Write the alg as a part of a larger node, such that it can be followed by other text.
+    pub(crate) fn fmt_enclosed(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", self)?;
+        if let Some(AlgNode::LineCommentNode(_)) = self.nodes.last() {
+            // Keep the closing delimiter from becoming part of the comment.
+            writeln!(f)?;
+        }
+        Ok(())
+    }
+}
+
 impl fmt::Display for Alg {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..9dbeffb 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -23,6 +23,10 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_enclosed(f)?;
+        write!(f, ", ")?;
+        self.b.fmt_enclosed(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..a1c6a15 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -22,6 +22,10 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_enclosed(f)?;
+        write!(f, ": ")?;
+        self.b.fmt_enclosed(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..2094ed7 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -59,7 +59,7 @@ impl fmt::Display for Grouping {
         if include_parentheses {
             write!(f, "(")?;
         }
-        write!(f, "{}", self.alg)?;
+        self.alg.fmt_enclosed(f)?;
         if include_parentheses {
             write!(f, ")")?;
         }
-- 
2.43.0


From f7bfdaa44cbfea29a8482f40a4aaad537f381f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 05/18] fix: do not report InvalidAlgError as its own source

Walking the `source()` chain of the error (as error reporters do) never ended.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..af1b8b9 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From df2ec3c768a70e44997d2567d6f356aabb76efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 06/18] fix: report unparseable KTransformation JSON as
 InvalidKTransformationData

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..bd6f88e 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -83,8 +83,8 @@ impl KTransformation {
         let ktransformation_data: KTransformationData = match serde_json::from_slice(json_bytes) {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
-                return Err(ConversionError::InvalidKPatternData(
-                    super::InvalidKPatternDataError {
+                return Err(ConversionError::InvalidKTransformationData(
+                    super::InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0


From 5726896bc7dc17996e81dc1d8dd46cfe7ad02fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 07/18] fix: invert transformations instead of algs for
 commutators and conjugates

Evaluating the inverse of each side as a separate alg took time exponential
in the nesting depth: a 100-character nested commutator took many seconds.
It could also recurse forever for a derived move whose alg reaches itself
only through such an inverse, which the definition validator does not see.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index af1b8b9..4aef60b 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -165,8 +165,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -174,7 +174,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0


From 40dd059424122dccb9f8bb853390656382fdf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 08/18] fix: reject definitions with an unrepresentable number
 of orientations

`numOrientations` 0 panicked (division by zero) when constructing the puzzle.
So did 72, 80, 84, 90, 96 and others up to 106, whose packed (orientation,
orientationMod) values do not fit into a byte; without overflow checks, they
corrupted orientations instead.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs            |  8 ++++++++
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 4aef60b..59a93da 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -197,6 +197,14 @@ impl KPuzzle {
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
+            if !OrientationPacker::supports_num_orientations(num_orientations) {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} is not supported ({}).",
+                        orbit_definition.orbit_name, num_orientations
+                    ),
+                });
+            }
             ordered_orbit_info.push({
                 KPuzzleOrbitInfo {
                     name: orbit_definition.orbit_name.clone(),
diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..b51b329 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -65,6 +65,17 @@ pub struct OrientationPacker {
 /// efficiently. This replaces arithmetic with simple lookups for `KPattern` logic.
 
 impl OrientationPacker {
+    /// Packed values are counted using a `u8`. Some values of `num_orientations`
+    /// have too many (orientation_mod, orientation) pairs for this.
+    pub fn supports_num_orientations(num_orientations: u8) -> bool {
+        let num_packed_values = (1..=num_orientations)
+            .filter(|factor| num_orientations % factor == 0)
+            .fold(num_orientations as usize, |sum, factor| {
+                sum + factor as usize
+            });
+        num_orientations != 0 && num_packed_values <= u8::MAX as usize
+    }
+
     pub fn new(num_orientations: u8) -> Self {
         let mut unpacking_table: [OrientationWithMod; NUM_BYTE_VALUES] =
             [BOGUS_ORIENTATION_WITH_MOD; NUM_BYTE_VALUES];
-- 
2.43.0


From 07a7a9f17a364f12dd5afd9d156ad435594adb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 09/18] fix: do not make zero-sized allocations for puzzles
 without pieces

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 59a93da..c4b3ce1 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -218,13 +218,17 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
+        // Making an allocation with a size of 0 is undefined behaviour.
+        let num_allocated_bytes = bytes_offset.max(1);
         Ok(Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
                 ordered_orbit_info,
-                layout: Layout::array::<u8>(bytes_offset).map_err(|_| InvalidDefinitionError {
-                    description: "Could not construct packed layout.".to_owned(),
+                layout: Layout::array::<u8>(num_allocated_bytes).map_err(|_| {
+                    InvalidDefinitionError {
+                        description: "Could not construct packed layout.".to_owned(),
+                    }
                 })?,
             }),
         })
-- 
2.43.0


From 6d840160f712d1bbcc451be9ff136dcd6ce9e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 10/18] fix: report invalid KTransformation data as an error

`KTransformation::try_from_data` and `try_from_json` panicked for missing
orbits, missing entries and out-of-range orientation deltas. Permutation entries
were not checked at all: applying a transformation with out-of-range entries to
a pattern read out of bounds, and inverting one with duplicate entries read
uninitialized memory.
---
 .../src/kpuzzle/packed/ktransformation.rs     | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index bd6f88e..1134439 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,9 +8,39 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
+fn validate_orbit_data(
+    orbit_info: &KPuzzleOrbitInfo,
+    orbit: &KTransformationOrbitData,
+) -> Result<(), InvalidKTransformationDataError> {
+    let invalid = |problem: &str| InvalidKTransformationDataError {
+        description: format!("{} in orbit {}", problem, orbit_info.name),
+    };
+    let num_pieces = orbit_info.num_pieces as usize;
+    if orbit.permutation.len() < num_pieces || orbit.orientation_delta.len() < num_pieces {
+        return Err(invalid("Not enough entries"));
+    }
+    let mut seen = [false; 0x100];
+    for permutation_idx in &orbit.permutation[..num_pieces] {
+        if *permutation_idx >= orbit_info.num_pieces {
+            return Err(invalid("Out-of-range `permutation` entry"));
+        }
+        if std::mem::replace(&mut seen[*permutation_idx as usize], true) {
+            return Err(invalid("Duplicate `permutation` entry"));
+        }
+    }
+    if orbit.orientation_delta[..num_pieces]
+        .iter()
+        .any(|orientation_delta| *orientation_delta >= orbit_info.num_orientations)
+    {
+        return Err(invalid("Out-of-range `orientationDelta` entry"));
+    }
+    Ok(())
+}
+
 #[derive(Clone, Eq)]
 pub struct KTransformation {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -31,13 +61,17 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let orbit = match ktransformation_data.get(&orbit_info.name) {
+                Some(orbit) => orbit,
+                None => {
+                    return Err(InvalidKTransformationDataError {
+                        description: format!("Missing orbit: {}", orbit_info.name),
+                    }
+                    .into())
+                }
+            };
+            validate_orbit_data(orbit_info, orbit)?;
             for i in 0..orbit_info.num_pieces {
-                let orbit = ktransformation_data.get(&orbit_info.name);
-                let orbit = match orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
-
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
                     i,
@@ -84,7 +118,7 @@ impl KTransformation {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
                 return Err(ConversionError::InvalidKTransformationData(
-                    super::InvalidKTransformationDataError {
+                    InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0


From d7044e7f1f2e7d4c17c26ac59b640bd9be86df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 11/18] fix: reject puzzle definitions with invalid move
 transformations

Such a definition was accepted, but using the affected move panicked.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index c4b3ce1..2b09760 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -220,7 +220,7 @@ impl KPuzzle {
 
         // Making an allocation with a size of 0 is undefined behaviour.
         let num_allocated_bytes = bytes_offset.max(1);
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -231,7 +231,15 @@ impl KPuzzle {
                     }
                 })?,
             }),
-        })
+        };
+        for (r#move, transformation_data) in &kpuzzle.definition().moves {
+            KTransformation::try_from_data(&kpuzzle, transformation_data).map_err(|e| {
+                InvalidDefinitionError {
+                    description: format!("Invalid definition for move {}: {}", r#move, e),
+                }
+            })?;
+        }
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
@@ -289,7 +297,7 @@ impl KPuzzle {
             // TODO: Avoid constructing this `KTransformation`.
             MoveLookupResultSource::DirectlyDefined(transformation_data) => {
                 KTransformation::try_from_data(self, transformation_data)
-                    .expect("TODO: invalid definition — this should be caught earlier")
+                    .expect("Move definitions are validated at construction time.")
             }
             MoveLookupResultSource::DerivedFromAlg(alg) => self.transformation_from_alg(alg)?,
         };
-- 
2.43.0


From 6b97482a620b67b8587abf0d7894975ddc54899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 12/18] fix: report invalid KPattern data as an error

`KPattern::try_from_data` and `try_from_json` panicked for missing orbits,
missing entries and out-of-range orientations.
---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 48 ++++++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..2bbb05b 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -14,6 +14,26 @@ use crate::{
     kpuzzle::{KPatternData, KPatternOrbitData},
 };
 
+fn validate_orbit_data_lengths(
+    orbit_info: &KPuzzleOrbitInfo,
+    orbit: &KPatternOrbitData,
+) -> Result<(), InvalidKPatternDataError> {
+    let num_pieces = orbit_info.num_pieces as usize;
+    let orientation_mod_is_too_short = orbit
+        .orientation_mod
+        .as_ref()
+        .is_some_and(|orientation_mod| orientation_mod.len() < num_pieces);
+    if orbit.pieces.len() < num_pieces
+        || orbit.orientation.len() < num_pieces
+        || orientation_mod_is_too_short
+    {
+        return Err(InvalidKPatternDataError {
+            description: format!("Not enough entries in orbit {}", orbit_info.name),
+        });
+    }
+    Ok(())
+}
+
 #[derive(Hash, PartialEq, Eq, Clone)]
 pub struct KPattern {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -35,12 +55,32 @@ impl KPattern {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_kpattern = Self::new_unitialized(&kpuzzle);
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let default_orbit = match kpattern_data.get(&orbit_info.name) {
+                Some(default_orbit) => default_orbit,
+                None => {
+                    return Err(InvalidKPatternDataError {
+                        description: format!("Missing orbit: {}", orbit_info.name),
+                    }
+                    .into())
+                }
+            };
+            validate_orbit_data_lengths(orbit_info, default_orbit)?;
             for i in 0..orbit_info.num_pieces {
-                let default_orbit = kpattern_data.get(&orbit_info.name);
-                let default_orbit = match default_orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                let orientation_mod = match &default_orbit.orientation_mod {
+                    Some(orientation_mod) if orientation_mod[i as usize] != 0 => {
+                        orientation_mod[i as usize]
+                    }
+                    _ => orbit_info.num_orientations,
                 };
+                if default_orbit.orientation[i as usize] >= orientation_mod {
+                    return Err(InvalidKPatternDataError {
+                        description: format!(
+                            "Out-of-range orientation for the piece at index {} in orbit {}",
+                            i, orbit_info.name
+                        ),
+                    }
+                    .into());
+                }
 
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
-- 
2.43.0


From 3ad20b95182f0b240b3713b6981c9306675f1ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 13/18] fix: keep transformations set up through
 set_permutation_idx memory-safe

The (safe) setter accepted out-of-range values, which then caused out-of-bounds
reads when the transformation was applied to a pattern. Duplicate values left
parts of the inverse transformation uninitialized.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 1134439..c3f7b83 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -182,10 +182,9 @@ impl KTransformation {
         }
     }
 
-    /// # Safety
-    /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
@@ -289,7 +288,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // The code below does not initialize all values if `set_permutation_idx` was used to create duplicate values.
+        let mut new_ktransformation = self.kpuzzle().identity_transformation();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0


From 52a63a4765658568edfa486ff3ff613ac77879d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 14/18] fix: do not access out-of-bounds memory for orbits or
 transformations from a different puzzle

---
 cubing_core/src/kpuzzle/packed/kpattern.rs    |  8 +++++
 .../src/kpuzzle/packed/ktransformation.rs     |  8 +++++
 .../src/kpuzzle/packed/packed_orbit_data.rs   | 34 +++++++++++++++++++
 3 files changed, 50 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 2bbb05b..d072f98 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -174,6 +174,7 @@ impl KPattern {
 
     pub fn get_piece(&self, orbit: &KPuzzleOrbitInfo, i: u8) -> u8 {
         assert_lt!(i, orbit.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit);
         unsafe { self.get_piece_unchecked(orbit, i) }
     }
 
@@ -191,6 +192,7 @@ impl KPattern {
         i: u8,
     ) -> &'a OrientationWithMod {
         assert_lt!(i, orbit.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit);
         unsafe { self.get_orientation_with_mod_unchecked(orbit, i) }
     }
 
@@ -219,6 +221,7 @@ impl KPattern {
 
     pub fn set_piece(&mut self, orbit: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit);
         unsafe { self.set_piece_unchecked(orbit, i, value) }
     }
 
@@ -239,6 +242,7 @@ impl KPattern {
         orientation_with_mod: &OrientationWithMod,
     ) {
         assert_lt!(i, orbit.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit);
         if orientation_with_mod.orientation_mod == 0 {
             assert_lt!(orientation_with_mod.orientation, orbit.num_orientations)
         } else {
@@ -299,6 +303,10 @@ impl KPattern {
         transformation: &KTransformation,
         into_kpattern: &mut KPattern,
     ) {
+        self.packed_orbit_data
+            .assert_same_layout(&transformation.packed_orbit_data);
+        self.packed_orbit_data
+            .assert_same_layout(&into_kpattern.packed_orbit_data);
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             // TODO: optimization when either value is the identity.
             for i in 0..orbit_info.num_pieces {
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index c3f7b83..58ca32f 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -148,6 +148,7 @@ impl KTransformation {
 
     pub fn get_permutation_idx(&self, orbit_info: &KPuzzleOrbitInfo, i: u8) -> u8 {
         assert_lt!(i, orbit_info.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit_info);
         unsafe { self.get_permutation_idx_unchecked(orbit_info, i) }
     }
 
@@ -164,6 +165,7 @@ impl KTransformation {
 
     pub fn get_orientation_delta(&self, orbit_info: &KPuzzleOrbitInfo, i: u8) -> u8 {
         assert_lt!(i, orbit_info.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit_info);
         unsafe { self.get_orientation_delta_unchecked(orbit_info, i) }
     }
 
@@ -184,6 +186,7 @@ impl KTransformation {
 
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit_info);
         assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
@@ -211,6 +214,7 @@ impl KTransformation {
         orientation_delta: u8,
     ) {
         assert_lt!(i, orbit_info.num_pieces);
+        self.packed_orbit_data.assert_contains_orbit(orbit_info);
         assert_lt!(orientation_delta, orbit_info.num_orientations);
         unsafe { self.set_orientation_delta_unchecked(orbit_info, i, orientation_delta) }
     }
@@ -247,6 +251,10 @@ impl KTransformation {
         transformation: &KTransformation,
         into_ktransformation: &mut KTransformation,
     ) {
+        self.packed_orbit_data
+            .assert_same_layout(&transformation.packed_orbit_data);
+        self.packed_orbit_data
+            .assert_same_layout(&into_ktransformation.packed_orbit_data);
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             // TODO: optimization when either value is the identity.
             for i in 0..orbit_info.num_pieces {
diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index a1b84c2..daefddc 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -2,6 +2,7 @@ use std::{
     alloc::{alloc, dealloc},
     fmt::Debug,
     hash::Hash,
+    sync::Arc,
 };
 
 use more_asserts::debug_assert_le;
@@ -25,6 +26,39 @@ impl PackedOrbitData {
         &self.kpuzzle
     }
 
+    /// Panics if the data has no such orbit (because the orbit is from a different puzzle).
+    pub(crate) fn assert_contains_orbit(&self, orbit: &KPuzzleOrbitInfo) {
+        assert!(
+            self.kpuzzle.orbit_info_iter().any(|own_orbit| {
+                std::ptr::eq(own_orbit, orbit)
+                    || (own_orbit.num_pieces == orbit.num_pieces
+                        && own_orbit.num_orientations == orbit.num_orientations
+                        && own_orbit.pieces_or_permutations_offset
+                            == orbit.pieces_or_permutations_offset
+                        && own_orbit.orientations_offset == orbit.orientations_offset)
+            }),
+            "Orbit is from an incompatible puzzle"
+        );
+    }
+
+    /// Panics if the other data is laid out differently (because it is for a different puzzle).
+    pub(crate) fn assert_same_layout(&self, other: &PackedOrbitData) {
+        if Arc::ptr_eq(&self.kpuzzle.data, &other.kpuzzle.data) {
+            return;
+        }
+        let orbit_sizes = |kpuzzle: &KPuzzle| {
+            kpuzzle
+                .orbit_info_iter()
+                .map(|orbit_info| (orbit_info.num_pieces, orbit_info.num_orientations))
+                .collect::<Vec<(u8, u8)>>()
+        };
+        assert_eq!(
+            orbit_sizes(&self.kpuzzle),
+            orbit_sizes(&other.kpuzzle),
+            "Incompatible puzzles"
+        );
+    }
+
     pub(crate) unsafe fn new_with_uninitialized_bytes(kpuzzle: KPuzzle) -> Self {
         let bytes = unsafe { alloc(kpuzzle.data.layout) };
         Self { kpuzzle, bytes }
-- 
2.43.0


From 416ed8d42865c486523b8ee72b3b626fe575a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 15/18] fix: report unreadable stdin instead of panicking

---
 alg_cli/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/alg_cli/main.rs b/alg_cli/main.rs
index 8848106..ccb5c14 100644
--- a/alg_cli/main.rs
+++ b/alg_cli/main.rs
@@ -65,6 +65,16 @@ pub fn get_options() -> AlgCLIArgs {
     args
 }
 
+fn alg_from_stdin() -> String {
+    match read_to_string(stdin()) {
+        Ok(alg) => alg,
+        Err(e) => {
+            eprintln!("Could not read alg from stdin: {}", e);
+            exit(1);
+        }
+    }
+}
+
 fn main() {
     let args = get_options();
 
@@ -74,7 +84,7 @@ fn main() {
                 Some(alg) => alg,
                 None => {
                     assert!(parse_args.stdin);
-                    read_to_string(stdin()).unwrap()
+                    alg_from_stdin()
                 }
             };
             let exit_code = match Alg::from_str(&alg) {
@@ -94,7 +104,7 @@ fn main() {
                 Some(alg) => alg,
                 None => {
                     assert!(invert_args.stdin);
-                    read_to_string(stdin()).unwrap()
+                    alg_from_stdin()
                 }
             };
             let alg = match Alg::from_str(&alg) {
-- 
2.43.0


From e029504992a9fccb72e92c0d4c2e0c91d50b37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 16/18] fix: print the grouping around a single commutator or
 conjugate

`([R, U])` printed as `[R, U]`, which parses to an alg that is not equal.
---
 cubing_core/src/alg/grouping.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 2094ed7..136d829 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -48,10 +48,12 @@ impl fmt::Display for Grouping {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut include_parentheses = true;
         if self.alg.nodes.len() == 1 {
-            include_parentheses = !matches!(
-                self.alg.nodes[0],
-                super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
-            )
+            // Without an amount, leaving out the parentheses would leave out the grouping.
+            include_parentheses = self.amount == 1
+                || !matches!(
+                    self.alg.nodes[0],
+                    super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
+                )
         } else if let Some((move_0, move_1)) = self.square1_tuple() {
             // Square-1 notation
             return write!(f, "({}, {})", move_0.amount, move_1.amount);
-- 
2.43.0


From 50bef2b057f61c447d9470c7822df57a1b28fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 17/18] fix: do not panic if a parse error can't be written to
 stderr

---
 cubing_core/src/alg/parse.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/alg/parse.rs b/cubing_core/src/alg/parse.rs
index d8719c4..ca36dae 100644
--- a/cubing_core/src/alg/parse.rs
+++ b/cubing_core/src/alg/parse.rs
@@ -1,4 +1,9 @@
-use std::{fmt::Display, str::FromStr, sync::Arc};
+use std::{
+    fmt::Display,
+    io::{stderr, Write},
+    str::FromStr,
+    sync::Arc,
+};
 
 use nom::{
     branch::alt,
@@ -331,7 +336,8 @@ impl FromStr for Alg {
         match all_consuming(parse_alg)(s) {
             Ok((_, alg)) => Ok(alg),
             Err(s) => {
-                eprintln!("Alg parsing error: {}", s);
+                // `eprintln!(…)` would panic if this can't be written.
+                let _ = writeln!(stderr(), "Alg parsing error: {}", s);
                 Err("Invalid alg string".into()) // TODO: pass on error
             }
         }
-- 
2.43.0


From 308a12dc444d2be9119915e63b1a344c9b1102e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 18/18] fix: refuse definitions with more than one orbit of the
 same name

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 2b09760..65e62d5 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -1,5 +1,6 @@
 use std::{
     alloc::Layout,
+    collections::HashSet,
     error::Error,
     fmt::{Debug, Display},
     slice::Iter,
@@ -191,8 +192,17 @@ impl KPuzzle {
 
         let mut bytes_offset = 0;
         let mut ordered_orbit_info: Vec<KPuzzleOrbitInfo> = vec![];
+        let mut orbit_names = HashSet::<&KPuzzleOrbitName>::new();
 
         for orbit_definition in &definition.orbits {
+            if !orbit_names.insert(&orbit_definition.orbit_name) {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "Orbit {} is defined more than once.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
             let num_orientations = orbit_definition.num_orientations;
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
-- 
2.43.0

