From 6b258f0d5437f243606ba06d6bebf27b4a375847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 01/77] fix: make ordering and hashing of identifiers and
 namespaces consistent with their case-insensitive equality

---
 atelier-core/src/model/identity.rs | 49 +++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..b785cf1 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,26 @@ impl PartialEq for Identifier {
     }
 }
 
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for Identifier {
+    /// Consistent with `PartialEq`, that is, without regard to case.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
+impl Hash for Identifier {
+    /// Consistent with `PartialEq`, that is, without regard to case.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +197,26 @@ impl PartialEq for NamespaceID {
     }
 }
 
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for NamespaceID {
+    /// Consistent with `PartialEq`, that is, without regard to case.
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
+impl Hash for NamespaceID {
+    /// Consistent with `PartialEq`, that is, without regard to case.
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 9587bc28df4da8ff10366ab6fd77d28448344d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/77] fix: has_metadata_value and has_shape answered the
 opposite of what they document

---
 atelier-core/src/model/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
-- 
2.43.0


From 72c6acd651ba6b5623fbd9dacd37a123d854275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/77] fix: has_member and has_identifier answered the
 opposite of what they document

---
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From 41551ab1fc7cee08c3cd75ad7ecf184f8e802bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 04/77] fix: adding a structure or union whose member names
 differ from the existing shape panicked, it is a merge conflict

---
 atelier-core/src/model/shapes/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..4b8c74d 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -360,18 +360,14 @@ impl NonTraitEq for TopLevelShape {
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l)| {
+                            r.member(k).map_or(false, |r| l.equal_without_traits(r))
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
                     l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                        && l.members.iter().all(|(k, l)| {
+                            r.member(k).map_or(false, |r| l.equal_without_traits(r))
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
-- 
2.43.0


From d3d77a9f6f773fd92aa4db36ca8612987a70eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 05/77] fix: merging two definitions of a shape dropped the
 traits on the members of the second

---
 atelier-core/src/model/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..ae65a4e 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing, &shape)?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,33 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+///
+/// Copy traits applied to the members of `from_shape` to the same members of `to_shape`, it is
+/// expected that these shapes are equal, ignoring any traits.
+///
+fn copy_member_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> ModelResult<()> {
+    match (to_shape.body_mut(), from_shape.body()) {
+        (ShapeKind::List(to), ShapeKind::List(from))
+        | (ShapeKind::Set(to), ShapeKind::Set(from)) => {
+            to.member.append_traits(from.member.traits())
+        }
+        (ShapeKind::Map(to), ShapeKind::Map(from)) => {
+            to.key.append_traits(from.key.traits())?;
+            to.value.append_traits(from.value.traits())
+        }
+        (ShapeKind::Structure(to), ShapeKind::Structure(from))
+        | (ShapeKind::Union(to), ShapeKind::Union(from)) => {
+            for member in from.members() {
+                if let Some(to_member) = to.members.get_mut(member.id()) {
+                    to_member.append_traits(member.traits())?;
+                }
+            }
+            Ok(())
+        }
+        _ => Ok(()),
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From dc444253599e3fad8ae2615d996a1fd8bd78dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 06/77] fix: fail_fast had no effect on running linters and
 validators, issues were inspected after they had been moved out

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..1f76cde 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| *issue.level() > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..b5696fc 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let has_errors = new_issues
+            .iter()
+            .any(|issue| *issue.level() > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && has_errors {
             break;
         }
     }
-- 
2.43.0


From d93e449198bcbb8852f5ca9cc84c71e6eabf7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 07/77] fix: the unwelcome terms found depended on which of two
 identifiers, differing only by case, was seen first

---
 atelier-core/src/action/lint/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index 1f76cde..34968a7 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<String>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -242,8 +242,8 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
+        if !self.checked.borrow().contains(&id.to_string()) {
+            let _ = self.checked.borrow_mut().insert(id.to_string());
             for word in terms::split_words(&id.to_string()) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
-- 
2.43.0


From 5385ace9bd903cfd4aa8531c35fcf4cd1131746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 08/77] fix: the builder made lists of sets

---
 atelier-core/src/builder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..5e08718 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -423,7 +423,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
-- 
2.43.0


From ec12d902b10a36ae04588d507cadc3e0fe9676cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 09/77] fix: the builder overwrote traits applied twice and
 dropped conflicting definitions silently, use trait conflict resolution and
 report errors

---
 atelier-core/src/builder/mod.rs | 42 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 5e08718..21dcfa4 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,7 +19,7 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
+    merge_traits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
     TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
@@ -31,7 +31,6 @@ use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -86,14 +85,19 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+        // Definitions first, so that the traits of references are always appended to theirs.
+        let (references, definitions): (Vec<_>, Vec<_>) = builder
+            .shapes
+            .values()
+            .partition(|shape| matches!(shape, TopLevelShapeBuilder::Reference(_)));
+        for shape in definitions.into_iter().chain(references) {
+            model.add_shape(builder.make_shape(shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
@@ -700,21 +704,19 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                Some(current) => merge_traits(&shape_id, current, &builder.value)?,
+                None => builder.value.clone(),
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From f2d383fc32f9c2a9f4d268ebe391835b07df61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 10/77] fix: the builder defined a shape in another namespace
 if a shape with the same name had been imported from there

---
 atelier-core/src/builder/mod.rs | 54 +++++++++++----------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 21dcfa4..3f71851 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -318,6 +318,15 @@ impl ModelBuilder {
         }
     }
 
+    /// The id of a shape being *defined*, an unqualified name is always in the current namespace
+    /// whatever else, imported or in the prelude, has the same name.
+    fn defined_shape_id(&self, shape_name: &ShapeName) -> Result<ShapeID, Error> {
+        match shape_name {
+            ShapeName::Qualified(_) => Ok(self.resolve_shape_name(shape_name, false)?.0),
+            ShapeName::Local(local) => Ok(self.default_namespace.make_shape(local.clone())),
+        }
+    }
+
     fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
         match shape_name {
             ShapeName::Qualified(shape_id) => {
@@ -377,10 +386,7 @@ impl ModelBuilder {
         builder: &SimpleShapeBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Simple(builder.simple_shape.clone()),
@@ -393,10 +399,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -417,10 +420,7 @@ impl ModelBuilder {
         builder: &ListBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (target_id, new_reference) = self.resolve_shape_name(&builder.member.target, false)?;
         if new_reference {
             let _ = references.insert(target_id.clone());
@@ -441,10 +441,7 @@ impl ModelBuilder {
         builder: &MapBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let (key_target_id, new_reference) = self.resolve_shape_name(&builder.key.target, false)?;
         if new_reference {
             let _ = references.insert(key_target_id.clone());
@@ -501,10 +498,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Structure(self.make_structure_inner(builder, references)?),
@@ -517,10 +511,7 @@ impl ModelBuilder {
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
             ShapeKind::Union(self.make_structure_inner(builder, references)?),
@@ -533,10 +524,7 @@ impl ModelBuilder {
         builder: &ServiceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut service = Service::new(&builder.version);
         for member_shape_id in &builder.operations {
             let (shape_id, new_reference) = self.resolve_shape_name(&member_shape_id, false)?;
@@ -567,10 +555,7 @@ impl ModelBuilder {
         builder: &OperationBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut operation = Operation::default();
         if let Some(shape_id) = &builder.input {
             let (shape_id, new_reference) = self.resolve_shape_name(&shape_id, false)?;
@@ -605,10 +590,7 @@ impl ModelBuilder {
         builder: &ResourceBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<TopLevelShape, Error> {
-        let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_name, false)?;
-        if new_reference {
-            let _ = references.insert(shape_id.clone());
-        }
+        let shape_id = self.defined_shape_id(&builder.shape_name)?;
         let mut resource = Resource::default();
         for (name, shape_ref) in &builder.identifiers {
             let (shape_id, new_reference) = self.resolve_shape_name(shape_ref, false)?;
-- 
2.43.0


From 11b409e35df103e1ddf37a784da26a8798855c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 11/77] fix: traits applied in the builder were lost, or
 panicked, depending on how the shape was named and on the order of calls

---
 atelier-core/src/builder/mod.rs    | 53 +++++++++++++++++++++++-------
 atelier-core/src/builder/shapes.rs |  3 ++
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 3f71851..157a02c 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -85,7 +85,7 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            model.add_metadata(k.clone(), v.clone())?;
+            let _ = model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
         // Definitions first, so that the traits of references are always appended to theirs.
@@ -196,8 +196,19 @@ impl ModelBuilder {
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
     pub fn reference(&mut self, builder: ReferenceBuilder) -> &mut Self {
-        let shape_id = &builder.shape_id;
-        self.insert(shape_id.clone(), builder.into())
+        let key = self.shape_key(&builder.shape_id);
+        if let Some(shape) = self.shapes.get_mut(&key) {
+            // Do not replace what is known of this shape with a reference to it.
+            if let TopLevelShapeBuilder::Reference(shape) = shape {
+                shape.imported |= builder.imported;
+            }
+            for a_trait in builder.applied_traits {
+                apply_to_shape(shape, a_trait);
+            }
+            self
+        } else {
+            self.insert(key, builder.into())
+        }
     }
 
     /// Set a metadata value.
@@ -217,17 +228,37 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
-        let previous = self.shapes.insert(id, shape);
-        if previous.is_some() {
-            info!("Interestingly the shape seems to have been added more than once?",);
+        let mut shape = shape;
+        let key = self.shape_key(&id);
+        match self.shapes.remove(&key) {
+            Some(TopLevelShapeBuilder::Reference(previous)) => {
+                // This is the definition of a shape that already had traits applied to it.
+                for a_trait in previous.applied_traits {
+                    apply_to_shape(&mut shape, a_trait);
+                }
+            }
+            Some(_) => info!("Interestingly the shape seems to have been added more than once?"),
+            None => {}
         }
+        let _ = self.shapes.insert(key, shape);
         self
     }
 
+    /// The key for a shape, the same whether it is named by its qualified id or, in the default
+    /// namespace, by its local name.
+    fn shape_key(&self, shape_name: &ShapeName) -> ShapeName {
+        match shape_name {
+            ShapeName::Qualified(_) => shape_name.clone(),
+            ShapeName::Local(local) => self.default_namespace.make_shape(local.clone()).into(),
+        }
+    }
+
     fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
         self.shapes
             .iter()
-            .filter(|(_, builder)| matches!(builder, TopLevelShapeBuilder::Reference(_)))
+            .filter(|(_, builder)| {
+                matches!(builder, TopLevelShapeBuilder::Reference(builder) if builder.imported)
+            })
             .map(|(id, _)| id)
     }
 
@@ -288,7 +319,7 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        if self.shapes.contains_key(&self.shape_key(shape_name)) {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
@@ -341,6 +372,7 @@ impl ModelBuilder {
                     apply_to_shape(shape, a_trait);
                 } else {
                     let mut builder = ReferenceBuilder::from(shape_id.clone());
+                    builder.imported = false;
                     let _ = builder.apply_trait(a_trait);
                     let _ = self.reference(builder);
                 }
@@ -349,12 +381,9 @@ impl ModelBuilder {
             ShapeName::Local(local) => {
                 // This is disallowed in the Smithy IDL which requires apply statements to take
                 // qualified names.
-                let (shape_id, new_reference) = self
+                let (shape_id, _) = self
                     .resolve_shape_name(&local.clone().into(), false)
                     .unwrap();
-                if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
-                }
                 self.apply_to(&shape_id.into(), a_trait)
             }
         }
diff --git a/atelier-core/src/builder/shapes.rs b/atelier-core/src/builder/shapes.rs
index ab4729d..3b032a3 100644
--- a/atelier-core/src/builder/shapes.rs
+++ b/atelier-core/src/builder/shapes.rs
@@ -152,6 +152,8 @@ pub struct ResourceBuilder {
 pub struct ReferenceBuilder {
     pub(super) shape_id: ShapeName,
     pub(super) applied_traits: Vec<TraitBuilder>,
+    /// `true` for a `use` of the shape, `false` if only the target of an `apply`.
+    pub(super) imported: bool,
 }
 
 /// Builder for `MemberShape` shapes.
@@ -747,6 +749,7 @@ impl From<ShapeID> for ReferenceBuilder {
         Self {
             shape_id: ShapeName::from(shape_id),
             applied_traits: Default::default(),
+            imported: true,
         }
     }
 }
-- 
2.43.0


From e2153fb7589b8ddd52f03ff03139e6773c48ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 12/77] fix: the builder took a shape only named by an apply as
 defined in the default namespace

---
 atelier-core/src/builder/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 157a02c..881fee9 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -253,6 +253,13 @@ impl ModelBuilder {
         }
     }
 
+    fn is_defined(&self, shape_name: &ShapeName) -> bool {
+        match self.shapes.get(&self.shape_key(shape_name)) {
+            None | Some(TopLevelShapeBuilder::Reference(_)) => false,
+            Some(_) => true,
+        }
+    }
+
     fn reference_names(&self) -> impl Iterator<Item = &ShapeName> {
         self.shapes
             .iter()
@@ -319,7 +326,7 @@ impl ModelBuilder {
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(&self.shape_key(shape_name)) {
+                        if self.is_defined(shape_name) {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
-- 
2.43.0


From b58d35b500950775bd741ec29106ceb78ea5b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 13/77] fix: write_model_to_file opened the file for reading
 only, it could never write

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 793363e0df40dcebcfade868ccd9b06af814d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 14/77] fix: the JSON reader named the key and value of a map
 both 'member'

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..fedfa8e 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From 32444751ccbe229a67eb1c7684de465c3d406d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 15/77] fix: the JSON reader printed the identifiers of
 resources to standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index fedfa8e..0b54ece 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From a948469b19b67e6ece07f64e19e0f88acb994d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 16/77] fix: the JSON reader turned integers above i64::MAX
 into negative numbers

---
 atelier-json/src/reader.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0b54ece..eb21d98 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -407,12 +407,11 @@ impl JsonReader {
             Value::Null => Ok(NodeValue::None),
             Value::Bool(v) => Ok(NodeValue::from(*v)),
             Value::Number(v) => {
-                if v.is_f64() {
-                    Ok(NodeValue::from(v.as_f64().unwrap()))
-                } else if v.is_i64() {
-                    Ok(NodeValue::from(v.as_i64().unwrap()))
-                } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
+                // Integers too large for an `i64` are represented as floating point.
+                if let Some(v) = v.as_i64() {
+                    Ok(NodeValue::from(v))
+                } else if let Some(v) = v.as_f64() {
+                    Ok(NodeValue::from(v))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From 5b138f611d35abb7f65f475b38d08d4ca3bc0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 17/77] fix: the JSON reader panicked on a service with an
 empty version

---
 atelier-json/src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index eb21d98..9bee495 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -172,6 +172,9 @@ impl JsonReader {
                 )))
             } else if s == SHAPE_SERVICE {
                 let version = if let Some(Value::String(value)) = outer.get(MEMBER_VERSION) {
+                    if value.is_empty() {
+                        return Err(ErrorKind::InvalidVersionNumber(Some(value.clone())).into());
+                    }
                     value.clone()
                 } else {
                     return Err(ErrorKind::InvalidVersionNumber(None).into());
-- 
2.43.0


From 0d3e3e7a00fafa4bbde3e8a6bab5dce74868d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 18/77] fix: the JSON reader silently ignored metadata, shapes,
 members and traits that are not objects

---
 atelier-json/src/reader.rs | 40 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 9bee495..ba77ba9 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -106,7 +106,7 @@ impl JsonReader {
 
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let _ = metadata.insert(k.clone(), self.value(v)?);
             }
@@ -116,13 +116,13 @@ impl JsonReader {
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
+        if let Some(vs) = self.optional_object(json)? {
             for (k, v) in vs {
                 let id = ShapeID::from_str(k)?;
                 let inner = self.shape(v)?;
                 let mut shape = TopLevelShape::new(id.clone(), inner);
 
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(v.get(ADD_SHAPE_KEY_TRAITS))? {
                     shape.append_traits(&self.traits(vs)?)?;
                 };
 
@@ -153,19 +153,17 @@ impl JsonReader {
                     self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
+                let members = match self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                    Some(vs) => self.members(vs)?,
+                    None => Default::default(),
                 };
                 Ok(ShapeKind::Structure(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
+                let members = match self.optional_object(outer.get(ADD_SHAPE_KEY_MEMBERS))? {
+                    Some(vs) => self.members(vs)?,
+                    None => Default::default(),
                 };
                 Ok(ShapeKind::Union(StructureOrUnion::with_members(
                     members.as_slice(),
@@ -263,7 +261,7 @@ impl JsonReader {
                     .into());
                 };
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
                 members.push(member);
@@ -378,7 +376,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
+                if let Some(vs) = self.optional_object(ms.get(ADD_SHAPE_KEY_TRAITS))? {
                     member_shape.append_traits(&self.traits(vs)?)?;
                 };
                 return Ok(member_shape);
@@ -392,6 +390,22 @@ impl JsonReader {
         .into())
     }
 
+    fn optional_object<'a>(
+        &self,
+        json: Option<&'a Value>,
+    ) -> ModelResult<Option<&'a Map<String, Value>>> {
+        match json {
+            None => Ok(None),
+            Some(Value::Object(vs)) => Ok(Some(vs)),
+            Some(other) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", other)),
+            )
+            .into()),
+        }
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From e3b5619f1ebcfb45adb1b84ea0b659b00efc3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 19/77] fix: the JSON writer panicked on infinite and
 not-a-number values

---
 atelier-json/src/writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/atelier-json/src/writer.rs b/atelier-json/src/writer.rs
index e92f01b..4c2a89a 100644
--- a/atelier-json/src/writer.rs
+++ b/atelier-json/src/writer.rs
@@ -330,6 +330,16 @@ fn from_value(value: &NodeValue) -> Value {
         }
         NodeValue::Number(v) => match v {
             Number::Integer(v) => Value::Number((*v).into()),
+            // JSON has no numbers for these, Smithy uses strings.
+            Number::Float(v) if v.is_nan() => Value::String("NaN".to_string()),
+            Number::Float(v) if v.is_infinite() => Value::String(
+                if v.is_sign_positive() {
+                    "Infinity"
+                } else {
+                    "-Infinity"
+                }
+                .to_string(),
+            ),
             Number::Float(v) => Value::Number(JsonNumber::from_f64(*v).unwrap()),
         },
         NodeValue::Boolean(v) => Value::Bool(*v),
-- 
2.43.0


From 2754fbdbeb392826d5f1c39a7d41954c53ff6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 20/77] fix: the builder silently replaced a shape defined
 twice, and panicked applying a trait to an unknown member

---
 atelier-core/src/builder/mod.rs | 86 +++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 37 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 881fee9..40a5ddb 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -27,7 +27,7 @@ use crate::model::{Identifier, Model, NamespaceID, ShapeID};
 use crate::prelude::{
     defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, PRELUDE_NAMESPACE,
 };
-use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
+use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE, SHAPE_ID_MEMBER_SEPARATOR};
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
@@ -49,6 +49,7 @@ pub struct ModelBuilder {
     smithy_version: Version,
     metadata: ValueMap,
     shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
+    redefined: Vec<TopLevelShapeBuilder>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -93,7 +94,8 @@ impl TryFrom<&mut ModelBuilder> for Model {
             .shapes
             .values()
             .partition(|shape| matches!(shape, TopLevelShapeBuilder::Reference(_)));
-        for shape in definitions.into_iter().chain(references) {
+        let redefined = builder.redefined.iter();
+        for shape in redefined.chain(definitions).chain(references) {
             model.add_shape(builder.make_shape(shape, &mut unresolved)?)?;
         }
         for shape_id in unresolved {
@@ -113,6 +115,7 @@ impl ModelBuilder {
             smithy_version,
             metadata: Default::default(),
             shapes: Default::default(),
+            redefined: Default::default(),
         }
     }
 
@@ -190,8 +193,26 @@ impl ModelBuilder {
     /// a new reference builder is created and the trait applied to it. This is similar to the
     /// way the `apply` statement works in the Smithy IDL.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
-        let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.try_apply(shape, a_trait).unwrap()
+    }
+
+    /// The same as `apply`, however the name of the shape, or member, may be invalid or ambiguous.
+    pub fn try_apply(&mut self, shape: &str, a_trait: TraitBuilder) -> Result<&mut Self, Error> {
+        let shape_id = match ShapeName::from_str(shape) {
+            Ok(shape_name) => match shape_name {
+                ShapeName::Qualified(shape_id) => shape_id,
+                local => self.resolve_shape_name(&local, false)?.0,
+            },
+            Err(e) => match shape.find(SHAPE_ID_MEMBER_SEPARATOR) {
+                None => return Err(e),
+                Some(at) => {
+                    let local = Identifier::from_str(&shape[..at])?.into();
+                    let (shape_id, _) = self.resolve_shape_name(&local, false)?;
+                    shape_id.make_member(Identifier::from_str(&shape[at + 1..])?)
+                }
+            },
+        };
+        Ok(self.apply_to(&shape_id, a_trait))
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
@@ -237,7 +258,11 @@ impl ModelBuilder {
                     apply_to_shape(&mut shape, a_trait);
                 }
             }
-            Some(_) => info!("Interestingly the shape seems to have been added more than once?"),
+            Some(previous) => {
+                // More than one definition, whether they agree is for the model to decide.
+                info!("Interestingly the shape seems to have been added more than once?");
+                self.redefined.push(previous);
+            }
             None => {}
         }
         let _ = self.shapes.insert(key, shape);
@@ -365,35 +390,25 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
-        match shape_name {
-            ShapeName::Qualified(shape_id) => {
-                if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
-                    }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
-                    apply_to_shape(shape, a_trait);
-                } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
-                    builder.imported = false;
-                    let _ = builder.apply_trait(a_trait);
-                    let _ = self.reference(builder);
+    fn apply_to(&mut self, shape_id: &ShapeID, a_trait: TraitBuilder) -> &mut Self {
+        let applied = match self.shapes.get_mut(&shape_id.shape_only().into()) {
+            None => false,
+            Some(shape) => match shape_id.member_name() {
+                None => {
+                    apply_to_shape(shape, a_trait.clone());
+                    true
                 }
-                self
-            }
-            ShapeName::Local(local) => {
-                // This is disallowed in the Smithy IDL which requires apply statements to take
-                // qualified names.
-                let (shape_id, _) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
-                self.apply_to(&shape_id.into(), a_trait)
-            }
+                Some(member_name) => apply_to_member(shape, member_name, a_trait.clone()),
+            },
+        };
+        if !applied {
+            // Nothing is known, yet, about this shape or member.
+            let mut builder = ReferenceBuilder::from(shape_id.clone());
+            builder.imported = false;
+            let _ = builder.apply_trait(a_trait);
+            let _ = self.reference(builder);
         }
+        self
     }
 
     fn make_shape(
@@ -746,8 +761,8 @@ fn apply_to_member(
     shape: &mut TopLevelShapeBuilder,
     member_name: &Identifier,
     a_trait: TraitBuilder,
-) {
-    let ok = match shape {
+) -> bool {
+    match shape {
         TopLevelShapeBuilder::List(shape) => {
             if member_name.to_string() == MEMBER_MEMBER {
                 let _ = shape.member.apply_trait(a_trait);
@@ -800,9 +815,6 @@ fn apply_to_member(
             }
         }
         _ => false,
-    };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
     }
 }
 
-- 
2.43.0


From cd773b0a731136b7ac20cd4c247ac38ded76be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 21/77] fix: characters above U+10FFF were not accepted in the
 text and comments of the Smithy IDL

---
 atelier-smithy/src/smithy.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..6891efd 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -11,13 +11,13 @@ br =
     _{ ws ~ EOI? }
 
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -122,7 +122,7 @@ quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -131,7 +131,7 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
@@ -143,7 +143,7 @@ text_block =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From 21d5cd6dea9212b9012143c056f8cf5461d2a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 22/77] fix: the Smithy IDL reader took true, false and null
 for keywords at the start of longer names, and did not accept names with two
 leading underscores

---
 atelier-smithy/src/smithy.pest | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 6891efd..0daf1d7 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -41,8 +41,10 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ identifier_char* }
+
+identifier_char =
+    _{ ASCII_ALPHA | ASCII_DIGIT | "_" }
 
 shape_id_member =
     { "$" ~ identifier }
@@ -112,11 +114,15 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+// these characters make the keyword the beginning of a shape_id
+keyword_end =
+    _{ identifier_char | "." | "#" | "$" }
+
+kw_true = { "true" ~ !keyword_end }
 
-kw_false = { "false" }
+kw_false = { "false" ~ !keyword_end }
 
-kw_null = { "null" }
+kw_null = { "null" ~ !keyword_end }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
-- 
2.43.0


From 618794237d2411cc96913dadd00b1619ba61bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 23/77] fix: the Smithy IDL reader refused numbers with an
 exponent, or too large for an integer

---
 atelier-smithy/src/parser/smithy.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..c430262 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -755,12 +755,11 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
-                NodeValue::Number(Number::Float(
-                    inner.as_str().parse().chain_err(|| "number format error")?,
-                ))
+            if let Ok(integer) = inner.as_str().parse() {
+                NodeValue::Number(Number::Integer(integer))
             } else {
-                NodeValue::Number(Number::Integer(
+                // Any with a fraction or exponent, and those too large for an integer.
+                NodeValue::Number(Number::Float(
                     inner.as_str().parse().chain_err(|| "number format error")?,
                 ))
             }
-- 
2.43.0


From 9295115e45c207944e9d5c12db7e3e9d6b4502ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 24/77] fix: the Smithy IDL reader kept the quotes around the
 keys of metadata and control statements, and did not know quoted names of
 shape properties

---
 atelier-smithy/src/parser/smithy.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index c430262..23eb169 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -106,7 +106,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(&key), value);
     }
     Ok(map)
 }
@@ -121,7 +121,7 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted(&key), value);
     }
     Ok(map)
 }
@@ -543,7 +543,7 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
             object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
         );
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key).as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
@@ -588,7 +588,7 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
     if let NodeValue::Object(object) = object {
         let mut operation = OperationBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key).as_str() {
                 MEMBER_INPUT => {
                     let _ = operation.input(&value.as_string().unwrap());
                 }
@@ -627,11 +627,11 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
     if let NodeValue::Object(object) = object {
         let mut resource = ResourceBuilder::new(&id);
         for (key, value) in object {
-            match key.as_str() {
+            match unquoted(&key).as_str() {
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            let _ = resource.identifier(&unquoted(&id), &target.as_string().unwrap());
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -851,6 +851,14 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
     }
 }
 
+/// A key is either an identifier or quoted text.
+fn unquoted(key: &str) -> String {
+    key.strip_prefix('"')
+        .and_then(|key| key.strip_suffix('"'))
+        .unwrap_or(key)
+        .to_string()
+}
+
 fn from_pest_error(e: PestError<Rule>) -> Error {
     Error::with_chain(
         e,
-- 
2.43.0


From c0a93d503ed91be8d58ac643645c432c9a6583aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 25/77] fix: the Smithy IDL reader refused every apply
 statement, and dropped the traits and documentation of the key and value of
 maps

---
 atelier-smithy/src/parser/smithy.rs | 51 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 23eb169..52be0bc 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -4,8 +4,8 @@ use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
@@ -187,15 +187,23 @@ fn parse_shape_statements(
     builder: &mut ModelBuilder,
 ) -> ModelResult<()> {
     entry!("parse_shape_statements", input_pair);
+    let mut applied: Vec<(String, TraitBuilder)> = Default::default();
     for shape_statement in input_pair.into_inner() {
         match shape_statement.as_rule() {
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                applied.push(parse_apply_statement(shape_statement)?);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
     }
+    // The shape may be defined after the statement that applies a trait to it.
+    for (shape_id, a_trait) in applied {
+        let _ = builder.try_apply(&shape_id, a_trait)?;
+    }
     Ok(())
 }
 
@@ -259,10 +267,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -428,13 +432,13 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
-        if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
-        } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+        if key.is_none() && member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
+            key = Some(member)
+        } else if value.is_none() && member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -443,7 +447,13 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(k), Some(v)) => {
+            let mut map = MapBuilder::new(&id, &k.target().to_string(), &v.target().to_string());
+            // keep the traits, and documentation, of the members.
+            map.key(k);
+            map.value(v);
+            Ok(map)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
@@ -724,27 +734,22 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
-- 
2.43.0


From 6af41ecff1a4ef470b5095cb40abd861e3b15049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 26/77] fix: the Smithy IDL reader panicked on shape properties
 and names that are missing or invalid, and refused the rename property of
 services

---
 atelier-smithy/src/parser/smithy.rs | 102 ++++++++++++++++++++++------
 1 file changed, 81 insertions(+), 21 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 52be0bc..eeab2b2 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -10,11 +10,12 @@ use atelier_core::builder::{
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -330,6 +331,9 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     // NOTE: We ALWAYS provide a value, this overrides the notion of None as a value here.
     // We are essentially bouncing type validation up a level to determine the corresponding
     // trait's shape.
+    if let Some(id) = &id {
+        check_shape_name(id)?;
+    }
     match (id, node_value) {
         (Some(id), None) => Ok(TraitBuilder::with_value(
             &id,
@@ -536,6 +540,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
     }
     match (id, shape_id) {
         (Some(id), Some(shape_id)) => {
+            check_shape_name(&shape_id)?;
             let mut member = MemberBuilder::new(&id, &shape_id);
             apply_traits(&mut member, &documentation, &traits);
             Ok(member)
@@ -548,17 +553,25 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let version = object
+            .iter()
+            .find(|(key, _)| unquoted(key) == MEMBER_VERSION)
+            .map(|(_, value)| value);
+        let mut service = match version {
+            Some(NodeValue::String(version)) if !version.is_empty() => {
+                ServiceBuilder::new(&id, version)
+            }
+            version => {
+                return Err(ErrorKind::InvalidVersionNumber(version.map(|v| v.to_string())).into())
+            }
+        };
         for (key, value) in object {
             match unquoted(&key).as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service.operation(shape_name_of(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -569,7 +582,22 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service.resource(shape_name_of(&value)?);
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (shape_id, local_name) in renames {
+                            let shape_id = unquoted(&shape_id);
+                            let _ = ShapeID::from_str(&shape_id)?;
+                            let local_name = string_of(&local_name)?;
+                            check_identifier(local_name)?;
+                            let _ = service.rename(&shape_id, local_name);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -600,15 +628,15 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match unquoted(&key).as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(shape_name_of(&value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(shape_name_of(&value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation.error(shape_name_of(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -641,7 +669,9 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&unquoted(&id), &target.as_string().unwrap());
+                            let id = unquoted(&id);
+                            check_identifier(&id)?;
+                            let _ = resource.identifier(&id, shape_name_of(&target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -650,27 +680,27 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(shape_name_of(&value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(shape_name_of(&value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(shape_name_of(&value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(shape_name_of(&value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(shape_name_of(&value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(shape_name_of(&value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource.operation(shape_name_of(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -681,7 +711,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(shape_name_of(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -692,7 +722,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource.resource(shape_name_of(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -856,6 +886,36 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
     }
 }
 
+fn string_of(value: &NodeValue) -> ModelResult<&str> {
+    match value {
+        NodeValue::String(value) => Ok(value),
+        _ => ParserError::new("string_of")
+            .expecting("a string")
+            .context(value)
+            .into(),
+    }
+}
+
+/// The value has to be the name of a shape, absolute or relative.
+fn shape_name_of(value: &NodeValue) -> ModelResult<&str> {
+    let name = string_of(value)?;
+    check_shape_name(name)?;
+    Ok(name)
+}
+
+/// Only names accepted by the model builder.
+fn check_shape_name(name: &str) -> ModelResult<()> {
+    if ShapeID::is_valid(name) {
+        Ok(())
+    } else {
+        check_identifier(name)
+    }
+}
+
+fn check_identifier(name: &str) -> ModelResult<()> {
+    Identifier::from_str(name).map(|_| ())
+}
+
 /// A key is either an identifier or quoted text.
 fn unquoted(key: &str) -> String {
     key.strip_prefix('"')
-- 
2.43.0


From 48fb22e14fc46fe4991ad09463432ce1c1ed8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 27/77] fix: the Smithy IDL reader dropped the version and
 metadata of a model without a namespace, all but the last metadata value for
 a key, and accepted any version number

---
 atelier-smithy/src/parser/smithy.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index eeab2b2..85fdf1b 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -74,10 +74,10 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 Rule::control_section,
                 parse_control_section
             );
-            let version = if let Some(NodeValue::String(version)) = control_data.get("version") {
-                Version::from_str(version)?
-            } else {
-                Version::default()
+            let version = match control_data.get("version") {
+                None => Version::default(),
+                Some(NodeValue::String(version)) => Version::from_str(version)?,
+                Some(version) => Version::from_str(&version.to_string())?,
             };
             let meta_data = next_pair_into!(
                 "parse_idl",
@@ -88,10 +88,14 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
             let builder = next_pair_into!("parse_idl", inner, Rule::shape_section, |item| {
                 parse_shape_section(item, version)
             });
-            match builder {
-                None => Ok(Model::default()),
-                Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
+            let mut model = match builder {
+                None => Model::new(version),
+                Some(builder) => builder.try_into()?,
+            };
+            for (key, value) in meta_data {
+                let _ = model.add_metadata(key, value)?;
             }
+            Ok(model)
         }
         _ => unexpected!("parse_idl", input_pair),
     }
@@ -112,9 +116,9 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
     Ok(map)
 }
 
-fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
+fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<(String, NodeValue)>> {
     entry!("parse_metadata_section", input_pair);
-    let mut map: ValueMap = Default::default();
+    let mut statements: Vec<(String, NodeValue)> = Default::default();
     for inner in input_pair.into_inner() {
         let (key, value) = pair_into!(
             "parse_control_section",
@@ -122,9 +126,9 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(unquoted(&key), value);
+        statements.push((unquoted(&key), value));
     }
-    Ok(map)
+    Ok(statements)
 }
 
 fn parse_shape_section(
-- 
2.43.0


From 65f7c624a826591889950522c177910a0c2e1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 28/77] fix: the Smithy IDL reader silently kept the last only
 of several values of a trait, or of several members with the same name

---
 atelier-smithy/src/parser/smithy.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 85fdf1b..24b1677 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -314,7 +314,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
             Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
-            Rule::node_value => {
+            Rule::node_value if node_value.is_none() => {
                 node_value = Some(parse_node_value(inner)?);
             }
             Rule::trait_structure_kvp => {
@@ -514,6 +514,15 @@ fn parse_shape_members(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<MemberBuil
             Rule::shape_member_kvp,
             parse_shape_member_kvp
         );
+        if members
+            .iter()
+            .any(|other: &MemberBuilder| other.name() == member.name())
+        {
+            return ParserError::new("parse_shape_members")
+                .expecting("unique member names")
+                .context(member.name())
+                .into();
+        }
         members.push(member);
     }
     Ok(members)
-- 
2.43.0


From e4110780dc833d5a95981dc16f2de5af2d5ffdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 29/77] fix: the Smithy IDL reader dropped comments, commas and
 empty lines at the start of a text block

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 0daf1d7..9bdb5b3 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -8,7 +8,7 @@ sp =
     _{ " " | "\t" }
 
 br =
-    _{ ws ~ EOI? }
+    _{ (sp* ~ (line_comment | NEWLINE))? ~ sp* }
 
 line_comment =
     _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ NEWLINE }
-- 
2.43.0


From ef64a6d13911b0f32dbd89fe079ac5ea9e5bfa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 30/77] fix: the Smithy IDL writer dropped the namespace of
 referenced shapes and traits, and traits applied to shapes in other
 namespaces

---
 atelier-smithy/src/writer.rs | 160 ++++++++++++++++++++++++-----------
 1 file changed, 112 insertions(+), 48 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..f423d17 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -1,10 +1,12 @@
+use std::collections::HashSet;
 use std::io::Write;
 
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
-use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
+use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
 use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, PRELUDE_NAMESPACE};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -39,14 +41,31 @@ use crate::syntax::{
 pub struct SmithyWriter {
     namespace: NamespaceID,
     prelude_namespace: NamespaceID,
+    defined_names: HashSet<Identifier>,
+    used_names: HashSet<Identifier>,
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Values
+// ------------------------------------------------------------------------------------------------
+
+/// As values these are not the names of shapes.
+const KEYWORDS: [&str; 3] = ["true", "false", "null"];
+
 // ------------------------------------------------------------------------------------------------
 // Implementations
 // ------------------------------------------------------------------------------------------------
 
 impl ModelWriter for SmithyWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
+        self.defined_names = model
+            .shape_names()
+            .filter(|id| id.namespace() == &self.namespace)
+            .map(|id| id.shape_name().clone())
+            .collect();
+        self.used_names = used_shapes(model)
+            .map(|shape| shape.id().shape_name().clone())
+            .collect();
         self.write_control_section(w, model)?;
         self.write_metadata_section(w, model)?;
         self.write_shape_section(w, model)
@@ -57,7 +76,38 @@ impl SmithyWriter {
     pub fn new(namespace: NamespaceID) -> Self {
         Self {
             namespace,
-            prelude_namespace: NamespaceID::new_unchecked(atelier_core::prelude::PRELUDE_NAMESPACE),
+            prelude_namespace: NamespaceID::new_unchecked(PRELUDE_NAMESPACE),
+            defined_names: Default::default(),
+            used_names: Default::default(),
+        }
+    }
+
+    ///
+    /// The name, relative if it is certain to resolve to the provided shape, otherwise absolute.
+    ///
+    fn shape_ref(&self, id: &ShapeID) -> String {
+        self.name_for(id, defined_prelude_shapes())
+    }
+
+    fn trait_ref(&self, id: &ShapeID) -> String {
+        self.name_for(id, defined_prelude_traits())
+    }
+
+    fn name_for(&self, id: &ShapeID, in_prelude: &HashSet<&'static str>) -> String {
+        let name = id.shape_name();
+        let relative = if id.is_member() || self.used_names.contains(name) {
+            false
+        } else if id.namespace() == &self.namespace {
+            self.defined_names.contains(name) && !KEYWORDS.contains(&name.to_string().as_str())
+        } else {
+            id.namespace() == &self.prelude_namespace
+                && !self.defined_names.contains(name)
+                && in_prelude.contains(name.to_string().as_str())
+        };
+        if relative {
+            name.to_string()
+        } else {
+            id.to_string()
         }
     }
 
@@ -97,10 +147,7 @@ impl SmithyWriter {
     }
 
     fn write_use_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
-        for use_shape in model
-            .shapes()
-            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
-        {
+        for use_shape in used_shapes(model) {
             writeln!(w, "{} {}", STATEMENT_USE, use_shape.id())?;
         }
         writeln!(w)?;
@@ -111,12 +158,10 @@ impl SmithyWriter {
         let from_namespace = self.namespace.clone();
         for shape in model
             .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
+            .filter(|shape| shape.id().namespace() == &from_namespace && !shape.is_unresolved())
         {
-            if !shape.body().is_unresolved() {
-                for (id, value) in shape.traits() {
-                    self.write_trait(w, id, value, "")?;
-                }
+            for (id, value) in shape.traits() {
+                self.write_trait(w, id, value, "")?;
             }
             match shape.body() {
                 ShapeKind::Simple(st) => {
@@ -124,22 +169,37 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.shape_ref(list.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_MEMBER,
+                        self.shape_ref(set.member().target())
+                    )?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
+                    writeln!(
+                        w,
+                        "    {}: {}",
+                        MEMBER_KEY,
+                        self.shape_ref(map.key().target())
+                    )?;
                     writeln!(
                         w,
                         "    {}: {}",
                         MEMBER_VALUE,
-                        map.value().target().shape_name()
+                        self.shape_ref(map.value().target())
                     )?;
                     writeln!(w, "}}")?;
                 }
@@ -163,7 +223,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -175,7 +235,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -185,10 +245,10 @@ impl SmithyWriter {
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.shape_ref(id))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.shape_ref(id))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -197,7 +257,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -209,27 +269,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.shape_ref(target))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.shape_ref(id))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.shape_ref(id))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.shape_ref(id))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.shape_ref(id))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.shape_ref(id))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.shape_ref(id))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -238,7 +298,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -250,7 +310,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -262,24 +322,24 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.shape_ref(s))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
                     }
                     writeln!(w, "}}")?;
                 }
-                ShapeKind::Unresolved => {
-                    if shape.has_traits() {
-                        for (id, value) in shape.traits() {
-                            write!(w, "{} {} ", SHAPE_APPLY, shape.id())?;
-                            self.write_trait(w, id, value, "")?;
-                        }
-                    }
-                }
+                ShapeKind::Unresolved => {}
             }
             writeln!(w)?;
         }
+        // These, as for the use section, may well be in another namespace.
+        for shape in model.shapes().filter(|shape| shape.is_unresolved()) {
+            for (id, value) in shape.traits() {
+                write!(w, "{} {} ", SHAPE_APPLY, shape.id())?;
+                self.write_trait(w, id, value, "")?;
+            }
+        }
         Ok(())
     }
 
@@ -290,14 +350,7 @@ impl SmithyWriter {
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
-        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
+        write!(w, "{}{}{}", prefix, TRAIT_PREFIX, self.trait_ref(id))?;
         match value {
             None => writeln!(w)?,
             Some(v) => {
@@ -372,8 +425,19 @@ impl SmithyWriter {
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.shape_ref(member.target())
         )?;
         Ok(())
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+/// References to shapes elsewhere, those with traits are written as apply statements.
+fn used_shapes(model: &Model) -> impl Iterator<Item = &TopLevelShape> {
+    model
+        .shapes()
+        .filter(|shape| shape.is_unresolved() && !shape.has_traits() && !shape.id().is_member())
+}
-- 
2.43.0


From 3d2a86598c0741c34bf1b3bc59a9774f195bad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 31/77] fix: the Smithy IDL writer wrote metadata objects
 without braces, nulls as nothing, whole floats as integers, keys without
 quotes and strings with escapes the IDL does not have

---
 atelier-smithy/src/writer.rs | 47 ++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index f423d17..3bd9231 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
-use atelier_core::model::values::Value;
+use atelier_core::model::values::{Number, Value};
 use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, PRELUDE_NAMESPACE};
 use atelier_core::syntax::{
@@ -126,8 +126,8 @@ impl SmithyWriter {
     fn write_metadata_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
-                write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                write!(w, "{} {} = ", STATEMENT_METADATA, quoted(key))?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -215,7 +215,7 @@ impl SmithyWriter {
                 }
                 ShapeKind::Service(service) => {
                     writeln!(w, "{} {} {{", SHAPE_SERVICE, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {:?}", MEMBER_VERSION, service.version())?;
+                    writeln!(w, "    {}: {}", MEMBER_VERSION, quoted(service.version()))?;
                     if service.has_operations() {
                         writeln!(
                             w,
@@ -381,7 +381,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::is_valid(k) {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{}: ", quoted(k))?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -391,10 +395,18 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
-            Value::Number(v) => write!(w, "{}", v)?,
+            // There are no numbers for these, Smithy uses strings.
+            Value::Number(Number::Float(v)) if v.is_nan() => write!(w, "\"NaN\"")?,
+            Value::Number(Number::Float(v)) if v.is_infinite() && *v > 0.0 => {
+                write!(w, "\"Infinity\"")?
+            }
+            Value::Number(Number::Float(v)) if v.is_infinite() => write!(w, "\"-Infinity\"")?,
+            // Always with a decimal point, or exponent.
+            Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
+            Value::Number(Number::Integer(v)) => write!(w, "{}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-            Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::String(v) => write!(w, "{}", quoted(v))?,
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
@@ -441,3 +453,22 @@ fn used_shapes(model: &Model) -> impl Iterator<Item = &TopLevelShape> {
         .shapes()
         .filter(|shape| shape.is_unresolved() && !shape.has_traits() && !shape.id().is_member())
 }
+
+/// Only the escapes of the Smithy IDL, these are not all the same as those of Rust.
+fn quoted(text: &str) -> String {
+    let mut quoted = String::with_capacity(text.len() + 2);
+    quoted.push('"');
+    for c in text.chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\\' => quoted.push_str("\\\\"),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            c if c < ' ' => quoted.push_str(&format!("\\u{:04x}", c as u32)),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
+}
-- 
2.43.0


From aa870060cf14c21e2fde320723283587e7fd2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 32/77] fix: the Smithy IDL writer dropped the traits on
 members of lists, sets and maps, and the renames of services

---
 atelier-smithy/src/writer.rs | 46 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 3bd9231..3b18332 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -9,9 +9,9 @@ use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, PRELUDE_NAMESPACE};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT,
+    MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY,
+    SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
     SHAPE_STRUCTURE, SHAPE_UNION,
 };
 
@@ -176,6 +176,7 @@ impl SmithyWriter {
                         self.shape_ref(list.member().target())
                     )?;
                     writeln!(w, "}}")?;
+                    self.write_applied(w, shape.id(), list.member())?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
@@ -186,21 +187,12 @@ impl SmithyWriter {
                         self.shape_ref(set.member().target())
                     )?;
                     writeln!(w, "}}")?;
+                    self.write_applied(w, shape.id(), set.member())?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_KEY,
-                        self.shape_ref(map.key().target())
-                    )?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        self.shape_ref(map.value().target())
-                    )?;
+                    self.write_member(w, map.key(), "    ")?;
+                    self.write_member(w, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
@@ -240,6 +232,13 @@ impl SmithyWriter {
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, local_name) in service.renames() {
+                            writeln!(w, "        \"{}\": \"{}\"", id, local_name)?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
@@ -423,6 +422,23 @@ impl SmithyWriter {
         Ok(())
     }
 
+    ///
+    /// The traits of a member as statements following the shape.
+    ///
+    fn write_applied(
+        &mut self,
+        w: &mut impl Write,
+        shape_id: &ShapeID,
+        member: &MemberShape,
+    ) -> Result<()> {
+        for (id, value) in member.traits() {
+            let member_id = shape_id.make_member(member.id().clone());
+            write!(w, "{} {} ", SHAPE_APPLY, member_id)?;
+            self.write_trait(w, id, value, "")?;
+        }
+        Ok(())
+    }
+
     fn write_member(
         &mut self,
         w: &mut impl Write,
-- 
2.43.0


From 3863e0cde43ccd2833352f112f5f51353d9b767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 33/77] fix: selector grammar: longest numeric comparator
 first, so >= and <= parse

---
 atelier-smithy/src/selector.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From deee9b2d572c7d5fbaa6c84f7390ae3e3b9d6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 34/77] fix: selector grammar: identifiers may start with
 several underscores

---
 atelier-smithy/src/selector.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index eabdc8e..30b1d05 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
-- 
2.43.0


From 3d551ba2fab72c0fded7718c0cbe3cfcfc9cae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 35/77] fix: selector grammar: carriage return is whitespace

---
 atelier-smithy/src/selector.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index 30b1d05..4c19dd6 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -215,4 +215,4 @@ zero =
 // Allows default whitespace handling
 // ------------------------------------------------------------------------------------------------
 
-WHITESPACE = _{ " " | "\t" | "\n" }
\ No newline at end of file
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
\ No newline at end of file
-- 
2.43.0


From 84a6b0b3b5a7207c11a472f84204642dc1126399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 36/77] fix: selector numbers with an exponent, or too large
 for an integer, do not panic

---
 atelier-smithy/src/parser/selector.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..c13ad12 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -223,13 +223,11 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
-            } else {
-                Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
-                )))
-            }
+            // A number with a fraction or an exponent, or too large for an integer, is a float.
+            Ok(Value::Number(match i64::from_str(number) {
+                Ok(v) => Number::Integer(v),
+                Err(_) => Number::Float(f64::from_str(number).unwrap()),
+            }))
         }
         Rule::root_shape_id => {
             let inner = inner.into_inner().next().unwrap();
-- 
2.43.0


From b4aa043e0483a84b87fc57c31a4b73b15b1ab408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 37/77] fix: parse_selector does not write to standard output

---
 atelier-smithy/src/parser/selector.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index c13ad12..5aea5e5 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
-- 
2.43.0


From be2c632a859211840d3a953d8053e8f062bebd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 38/77] fix: selector text with double quotes, and whole
 floats, print as they are parsed

---
 atelier-core/src/model/selector/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..c899800 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,7 +596,11 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                // there are no escapes in selector text, only a choice of quotes
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
+                // keeps the fraction, `1.0`, and so the difference between float and integer
+                Value::Number(Number::Float(v)) => format!("{:?}", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
                 Value::AbsoluteRootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From 3fb2b81e16c91f0d062d7ea86fa4211805c567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 39/77] fix: comparison helpers keep the value they are given,
 not its text

---
 atelier-core/src/builder/selector.rs   |  8 ++++----
 atelier-core/src/model/selector/mod.rs | 19 ++++++-------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..3e3795e 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index c899800..b62b0f5 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -853,10 +853,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1260,11 +1257,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
@@ -1291,7 +1284,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1300,7 +1293,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1309,7 +1302,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1318,7 +1311,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
-- 
2.43.0


From d11841adbfb57dc12bca3a2c27a77160a69c3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 40/77] fix: a URN with a query or fragment does not name a
 shape

---
 atelier-rdf/src/urn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..3bb4726 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -65,7 +65,9 @@ pub fn is_shape_iri(iri: IRIRef) -> bool {
 /// conform to the format described in the module documentation.
 ///
 pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
-    if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
+    if iri.has_query() || iri.has_fragment() {
+        Err(String::from("Smithy URN has a query or fragment"))
+    } else if iri.scheme() == &Some(Scheme::from_str("urn").unwrap()) {
         let path = iri.path().to_string();
         if let Some(path) = path.strip_prefix(URN_NID) {
             if path
-- 
2.43.0


From 08e6976f0171ec28a758bb97dd5588047fcf231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 41/77] fix: write a model's metadata to RDF

---
 atelier-rdf/src/writer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..22150c9 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -168,6 +168,19 @@ pub fn model_to_rdf(
                 .unwrap(),
         );
     }
+    if model.has_metadata() {
+        let metadata = model
+            .metadata()
+            .map(|(key, value)| (key.clone(), value.clone()))
+            .collect();
+        let mut graph: RefMut<'_, dyn Graph> = graph.borrow_mut();
+        from_value(
+            &mut graph,
+            model_subject.clone(),
+            vocabulary::metadata().clone(),
+            &Value::Object(metadata),
+        )?;
+    }
     let visitor = RdfModelVisitor {
         model_subject,
         graph,
-- 
2.43.0


From ea2f27fd59ad42a427a2b73a7ad2717996beee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 42/77] fix: write the target of a resource identifier to RDF
 as smithy:target

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 22150c9..d420a37 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -567,7 +567,7 @@ impl ModelVisitor for RdfModelVisitor {
                     statement_factory
                         .statement(
                             name_target_pair.clone(),
-                            vocabulary::value().clone(),
+                            vocabulary::target().clone(),
                             statement_factory.named_object(shape_to_iri(target).clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From ba524337db8584941deafcc32e8aafef50323866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 43/77] fix: write a null value to RDF as smithy:null

---
 atelier-rdf/src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index d420a37..82df5fe 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -902,7 +902,7 @@ fn from_value(
                     .statement(
                         subject,
                         predicate,
-                        statement_factory.named_object(rdf::nil().clone()),
+                        statement_factory.named_object(vocabulary::null().clone()),
                     )
                     .unwrap(),
             );
-- 
2.43.0


From 7a147a4188d41288eae75c2e4fedd66e5bc58b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 44/77] fix: number the members of RDF containers so that
 arrays keep their order

---
 atelier-rdf/src/writer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 82df5fe..98ee8f2 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -540,9 +540,7 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
             for (idx, (name, target)) in shape.identifiers().enumerate() {
-                let member = IRIRef::new(
-                    IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), idx + 1)).unwrap(),
-                );
+                let member = container_member(idx + 1);
                 let name_target_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
@@ -698,6 +696,10 @@ fn add_shape(graph: &mut RefMut<'_, dyn Graph>, the_model: SubjectNodeRef, subje
     );
 }
 
+fn container_member(index: usize) -> IRIRef {
+    IRIRef::new(IRI::from_str(&format!("{}_{}", rdf::namespace_iri(), index)).unwrap())
+}
+
 fn from_member(
     graph: &mut RefMut<'_, dyn Graph>,
     subject: IRIRef,
@@ -845,12 +847,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), container_member(idx + 1), value)?;
             }
         }
         Value::Object(v) => {
@@ -873,13 +875,13 @@ fn from_value(
                     )
                     .unwrap(),
             );
-            for (k, v) in v {
+            for (idx, (k, v)) in v.iter().enumerate() {
                 let kv_pair = graph.statement_factory().blank_subject();
                 graph.insert(
                     statement_factory
                         .statement(
                             the_value.clone(),
-                            rdf::li().clone(),
+                            container_member(idx + 1),
                             statement_factory.subject_as_object(kv_pair.clone()),
                         )
                         .unwrap(),
-- 
2.43.0


From 1b899412700bb1e519540bf495a5ba74064e0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 45/77] fix: write a service's renames to RDF

---
 atelier-rdf/src/writer.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 98ee8f2..80e1e3c 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -441,6 +441,58 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = graph.statement_factory().blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (shape_id, name)) in shape.renames().enumerate() {
+                let shape_name_pair = graph.statement_factory().blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            container_member(idx + 1),
+                            statement_factory.subject_as_object(shape_name_pair.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(shape_id)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-- 
2.43.0


From 3d7c58fe61dd4ad1922bb7af5e07bad2636baf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 46/77] fix: write the traits applied to shapes defined
 elsewhere to RDF

---
 atelier-rdf/src/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 80e1e3c..716e3e9 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -726,8 +726,10 @@ impl ModelVisitor for RdfModelVisitor {
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-    fn unresolved_id(&self, _id: &ShapeID, _traits: &AppliedTraits) -> Result<(), Self::Error> {
-        Ok(())
+    fn unresolved_id(&self, id: &ShapeID, traits: &AppliedTraits) -> Result<(), Self::Error> {
+        let mut graph: RefMut<'_, dyn Graph> = self.graph.borrow_mut();
+        let subject = graph.statement_factory().named_subject(shape_to_iri(id));
+        from_traits(&mut graph, subject, traits)
     }
 }
 
-- 
2.43.0


From da93f47afc67775279c763644204259644e30211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 47/77] fix: ModelAssembler::default searches the paths in
 SMITHY_PATH, as documented

---
 atelier-assembler/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..12cda12 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -66,6 +66,15 @@ use std::fs::{read_dir, File};
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
+// ------------------------------------------------------------------------------------------------
+// Public Values
+// ------------------------------------------------------------------------------------------------
+
+///
+/// The environment variable holding the default search path for models.
+///
+pub const SEARCH_PATH_ENV_VAR: &str = "SMITHY_PATH";
+
 // ------------------------------------------------------------------------------------------------
 // Public Types
 // ------------------------------------------------------------------------------------------------
@@ -289,7 +298,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(SEARCH_PATH_ENV_VAR)),
+        )
     }
 }
 
-- 
2.43.0


From c034985477878e50fdbb920ec5a83a1652ef841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 48/77] fix: register_all registers the MIME type of the file
 type as register does

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 12cda12..16298d1 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -252,9 +252,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0


From e3e05479c351f084eddae2ef5bec027d4e47b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 49/77] fix: assemble files in a fixed order, and each file
 once

---
 atelier-assembler/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 16298d1..ea1f13e 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -418,6 +418,11 @@ impl ModelAssembler {
         for path in &self.paths {
             self.expand_path(path, &mut results);
         }
+        // The set of paths, and the content of directories, come in no particular order; also, a
+        // file may be reached more than once.
+        results.sort();
+        let mut seen: HashSet<PathBuf> = HashSet::default();
+        results.retain(|path| seen.insert(path.canonicalize().unwrap_or_else(|_| path.clone())));
         results
     }
 
-- 
2.43.0


From 7b107e17fb4587c96b60bfacbf7ca3ece75ec7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 50/77] fix: an unreadable file or directory is an error, not a
 panic, in the assembler

---
 atelier-assembler/src/lib.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index ea1f13e..8d5651c 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -321,7 +321,7 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
+                .find_file_paths()?
                 .iter()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
@@ -414,20 +414,27 @@ impl ModelAssembler {
     ///
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
+        self.find_file_paths().unwrap_or_else(|err| {
+            error!("ModelAssembler::expand_file_paths() - {}", err);
+            Default::default()
+        })
+    }
+
+    // --------------------------------------------------------------------------------------------
+
+    fn find_file_paths(&self) -> Result<Vec<PathBuf>> {
         let mut results = Vec::default();
         for path in &self.paths {
-            self.expand_path(path, &mut results);
+            self.expand_path(path, &mut results)?;
         }
         // The set of paths, and the content of directories, come in no particular order; also, a
         // file may be reached more than once.
         results.sort();
         let mut seen: HashSet<PathBuf> = HashSet::default();
         results.retain(|path| seen.insert(path.canonicalize().unwrap_or_else(|_| path.clone())));
-        results
+        Ok(results)
     }
 
-    // --------------------------------------------------------------------------------------------
-
     fn include_search_path(self, search_path: SearchPath) -> Self {
         debug!("ModelAssembler::include_search_path",);
         let mut mut_self = self;
@@ -436,7 +443,7 @@ impl ModelAssembler {
     }
 
     #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
         if path.is_file() {
             if let Some(extension) = path.extension() {
@@ -448,11 +455,12 @@ impl ModelAssembler {
             }
         } else if path.is_dir() {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
+            for entry in read_dir(path)? {
+                let entry = entry?;
+                self.expand_path(&entry.path(), results)?;
             }
         }
+        Ok(())
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -460,7 +468,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
-- 
2.43.0


From fdd3d615ae2e666c7b349c6a6b27d4e79e8e7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 51/77] fix: a query no longer writes to standard output

---
 atelier-query/src/evaluate.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index ed92c58..b0f8398 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -52,7 +52,6 @@ fn query_one(
     previously_selected: Projection,
     over_model: &Model,
 ) -> Projection {
-    println!("query_one({:?} |-> {})", previously_selected, query);
     match query {
         SelectorExpression::ShapeType(v) => query_by_shape_type(v, previously_selected, over_model),
         SelectorExpression::AttributeSelector(v) => {
-- 
2.43.0


From de02d9d1cd2c404fbff0ab381f464721a38cee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 52/77] fix: bytes and longs are numbers to a query

---
 atelier-query/src/evaluate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index b0f8398..e32a5c4 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -142,9 +142,11 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
                     shape_body,
                     Simple::BigDecimal
                         | Simple::BigInteger
+                        | Simple::Byte
                         | Simple::Double
                         | Simple::Float
                         | Simple::Integer
+                        | Simple::Long
                         | Simple::Short
                 )
             } else {
-- 
2.43.0


From 3cd0f14731faf6278e56a9174019be90d1020d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 53/77] fix: a map is not a collection to a query

---
 atelier-query/src/evaluate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-query/src/evaluate.rs b/atelier-query/src/evaluate.rs
index e32a5c4..8e69a90 100644
--- a/atelier-query/src/evaluate.rs
+++ b/atelier-query/src/evaluate.rs
@@ -154,7 +154,7 @@ fn match_by_shape_type(shape_type: &ShapeType, shape: &TopLevelShape) -> bool {
             }
         }
         ShapeType::SimpleType => shape_body.is_simple(),
-        ShapeType::Collection => shape_body.is_list() || shape_body.is_set() || shape_body.is_map(),
+        ShapeType::Collection => shape_body.is_list() || shape_body.is_set(),
         ShapeType::Blob => {
             shape_body.is_simple() && matches!(shape.body().as_simple().unwrap(), Simple::Blob)
         }
-- 
2.43.0


From 7ca67c45fbc543f538017efd20f1fb9f6828dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 54/77] fix: document shapes whose name starts with an
 underscore

---
 atelier-describe/src/document/writer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..7c98f63 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -303,13 +303,12 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 }
 
 fn shape_id_to_label(source: &ShapeID) -> Label {
+    // The prefix is part of the label, an identifier may start with an underscore where a label may
+    // not.
     if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+        Label::safe_from(&format!("member:{}_{}", source.shape_name(), member), None)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
+        Label::safe_from(&format!("shape:{}", source.shape_name()), None)
     }
 }
 
-- 
2.43.0


From 4541beaf34ace7a9e538d9396715c0efde1fb78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 55/77] fix: document the whole path of nested trait values

---
 atelier-describe/src/document/writer.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 7c98f63..d8f00df 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -203,26 +203,36 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    result.extend(trait_value(
+                        id.clone(),
+                        Some(format!("{}[{}]", prefix, i)),
+                        v,
+                    ));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    result.extend(trait_value(
+                        id.clone(),
+                        Some(format!("{}.{}", prefix, k)),
+                        v,
+                    ));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
-- 
2.43.0


From ad551c571b28794c09a2ae846732da2a4af0a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 56/77] fix: links to external documentation lead to its URL,
 without quotes

---
 atelier-describe/src/document/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index d8f00df..1827255 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -297,8 +297,12 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
         let mut links: Vec<InlineContent> = value_map
             .iter()
             .map(|(k, v)| {
+                let target = match v {
+                    Value::String(v) => v.clone(),
+                    v => v.to_string(),
+                };
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &target,
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From e112c5585166166834940855a59f7c2144d133c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 57/77] fix: a documentation trait that is not a string does
 not make the documentation writer panic

---
 atelier-describe/src/document/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 1827255..1c08077 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -288,8 +288,8 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
-    if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+    if let Some(Some(Value::String(doc_value))) = shape.trait_named(&trait_id) {
+        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
-- 
2.43.0


From 9c1db5099d50405b20e80a465b6985ed46b0e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 58/77] fix: a PlantUML package has only the shapes of its
 namespace

---
 atelier-describe/src/plant_uml/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..a6c6c4a 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -167,7 +167,10 @@ impl ModelWriter for PlantUmlWriter {
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model
+                .shapes()
+                .filter(|shape| shape.id().namespace() == namespace)
+            {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
-- 
2.43.0


From 9338417052af15b6372f575335b9dad412594317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 59/77] fix: write operations that are not defined in the model
 to PlantUML

---
 atelier-describe/src/plant_uml/writer.rs | 30 ++++++++++--------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index a6c6c4a..f75f3a3 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -365,29 +365,25 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        // The operation may not be defined in this model, or may not even be an operation.
+        let operation = model
+            .shape(oper_id)
+            .and_then(|operation| operation.body().as_operation());
+        let input = operation.and_then(|operation| operation.input().as_ref());
+        let output = operation.and_then(|operation| operation.output().as_ref());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
-            },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
-            },
+            input
+                .map(|input| self.type_string(input, model))
+                .unwrap_or_default(),
+            output
+                .map(|output| format!(": {}", self.type_string(output, model)))
+                .unwrap_or_default(),
         )?;
         Ok(())
     }
-- 
2.43.0


From 4e793ecfa2deb1f42c3045734b5905159936d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 60/77] fix: name the lifecycle operations of a resource in
 PlantUML

---
 atelier-describe/src/plant_uml/writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index f75f3a3..c2632b4 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -269,19 +269,19 @@ impl PlantUmlWriter {
             self.write_operation(w, id, model, Some("create"))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("put"))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("read"))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("update"))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("delete"))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("list"))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
-- 
2.43.0


From bc338031ecf04fcc89b2ec4df6c5ce9e32c64f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 61/77] fix: write the documentation of simple shapes to
 PlantUML as notes

---
 atelier-describe/src/plant_uml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index c2632b4..df1d463 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -343,7 +343,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
-- 
2.43.0


From dc9a9fd95789279382feed96f7b3e1d26390e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 62/77] fix: the version in GraphML refers to the key declared
 for it

---
 atelier-describe/src/graphml/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..06596a4 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -43,7 +43,7 @@ For the _message of the day_ model, this writer will generate the following XML.
         <default>member</default>
     </key>
     <graph id="model" edgedefault="directed">
-        <data key="smithy.version">1.0</data>
+        <data key="smithy-version">1.0</data>
         <node id="example.motd#GetMessageOutput">
             <data key="type">structure</data>
         </node>
@@ -187,7 +187,7 @@ impl ModelWriter for GraphMLWriter {
         writeln!(w, r#"    <graph id="model" edgedefault="directed">"#)?;
         writeln!(
             w,
-            r#"        <data key="smithy.version">{}</data>"#,
+            r#"        <data key="smithy-version">{}</data>"#,
             model.smithy_version()
         )?;
 
-- 
2.43.0


From de682a922ff92cf2e2e124a072305b0d3aaa6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 63/77] fix: escape the version of a service in GraphML

---
 atelier-describe/src/graphml/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 06596a4..dbe0a72 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape_text(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,15 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+///
+/// Escape those characters that may not appear as they are in the text of an XML element.
+///
+fn escape_text(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From e083c326808847bae91e27decca66d1f9d76e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 64/77] fix: more than 65536 edges have different ids in
 GraphML

---
 atelier-describe/src/graphml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index dbe0a72..3bd6233 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: u64,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From fcb0253fed33ed0c073c083f595293e93ed9b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 65/77] fix: write the converted model and the documentation to
 files that can be written

---
 cargo-atelier/src/actions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..2a76715 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,7 +83,7 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
@@ -136,7 +136,7 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
     Ok(())
-- 
2.43.0


From 51ce884bccb0615e9861f66249551d7bcfdd362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 66/77] fix: a conversion that fails ends with an error, not a
 panic and not success

---
 cargo-atelier/src/actions.rs  | 4 ++--
 cargo-atelier/src/bin/main.rs | 6 +-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 2a76715..bea91aa 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -90,7 +90,7 @@ fn write_model(
         FileFormat::Json => write_json(&mut file, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
@@ -100,7 +100,7 @@ fn write_model(
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
                 } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
+                    Err("A namespace value is required for writing Smithy IDL".into())
                 }
             }
         }
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..07bde92 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -14,9 +14,5 @@ fn main() -> Result<(), Box<dyn Error>> {
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
     };
 
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
-    }
-
-    Ok(())
+    result
 }
-- 
2.43.0


From a66f50152031db8312b06942488b37e55f68ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 67/77] fix: the flag -d searches the paths in SMITHY_PATH

---
 cargo-atelier/src/command_line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..2052621 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::SEARCH_PATH_ENV_VAR;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(SEARCH_PATH_ENV_VAR))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From 3a871953287599d30e29c257ecc8a2e71117aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 68/77] fix: a report that cannot be written made the tool
 panic

---
 cargo-atelier/src/report.rs | 40 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/cargo-atelier/src/report.rs b/cargo-atelier/src/report.rs
index a2e79b0..8cf3bec 100644
--- a/cargo-atelier/src/report.rs
+++ b/cargo-atelier/src/report.rs
@@ -1,5 +1,6 @@
 use atelier_lib::core::action::{ActionIssue, IssueLevel};
 use std::error::Error;
+use std::io::Write;
 
 #[cfg(feature = "color")]
 use colored::Colorize;
@@ -9,42 +10,46 @@ use colored::Colorize;
 // ------------------------------------------------------------------------------------------------
 
 pub fn report_action_issues(issues: Vec<ActionIssue>, color: bool) -> Result<(), Box<dyn Error>> {
-    println!();
+    let w = &mut std::io::stdout();
+    writeln!(w)?;
     if !issues.is_empty() {
         for issue in issues {
             if color {
-                report_issue(issue)
+                report_issue(w, issue)?
             } else {
-                report_issue_no_color(issue)
+                report_issue_no_color(w, issue)?
             }
         }
     } else {
-        println!("No issues reported.");
+        writeln!(w, "No issues reported.")?;
     }
+    w.flush()?;
     Ok(())
 }
 
-fn report_issue_no_color(issue: ActionIssue) {
-    println!("[{}] {}", issue.level(), issue.message(),);
-    println!(
+fn report_issue_no_color(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(w, "[{}] {}", issue.level(), issue.message(),)?;
+    writeln!(
+        w,
         "\tReported by {} for element {}.",
         issue.reporter(),
         match issue.locus() {
             Some(id) => id.to_string(),
             None => String::new(),
         }
-    );
-    println!()
+    )?;
+    writeln!(w)
 }
 
 #[cfg(not(feature = "color"))]
-fn report_issue(issue: ActionIssue) {
-    report_issue_no_color(issue)
+fn report_issue(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    report_issue_no_color(w, issue)
 }
 
 #[cfg(feature = "color")]
-fn report_issue(issue: ActionIssue) {
-    println!(
+fn report_issue(w: &mut impl Write, issue: ActionIssue) -> std::io::Result<()> {
+    writeln!(
+        w,
         "{} {}",
         match issue.level() {
             IssueLevel::Info => "[info]".normal(),
@@ -52,9 +57,10 @@ fn report_issue(issue: ActionIssue) {
             IssueLevel::Error => "[error]".bright_red(),
         },
         issue.message().bold()
-    );
+    )?;
 
-    println!(
+    writeln!(
+        w,
         "{}",
         format!(
             "\tReported by {}{}.",
@@ -65,6 +71,6 @@ fn report_issue(issue: ActionIssue) {
             }
         )
         .dimmed()
-    );
-    println!()
+    )?;
+    writeln!(w)
 }
-- 
2.43.0


From 5541065f116eb2cf515d8cd0bf8be40fb6dd2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 69/77] fix: the end of an output that could not be written was
 lost without an error

---
 cargo-atelier/src/actions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index bea91aa..64d3278 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -105,7 +105,9 @@ fn write_model(
             }
         }
         FileFormat::Uml => write_uml(&mut file, model),
-    }
+    }?;
+    file.flush()?;
+    Ok(())
 }
 
 fn transform_file(
@@ -139,6 +141,7 @@ fn document_a_file(
         Some(file_name) => Box::new(File::create(file_name)?),
     };
     write_document(&document, output_format, &mut file)?;
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 073a7f40c16b5979d803828b2f37fdef99a7eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 70/77] fix: the documentation writer reports every failure of
 its output

---
 atelier-describe/src/document/writer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 1c08077..d9110f0 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -71,7 +71,7 @@ use somedoc::model::inline::HyperLink;
 use somedoc::model::inline::{HasInlineContent, InlineContent, Span};
 use somedoc::model::Document;
 use somedoc::write::markdown::MarkdownFlavor;
-use somedoc::write::{write_document, OutputFormat};
+use somedoc::write::{write_document_to_string, OutputFormat};
 use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
@@ -113,12 +113,15 @@ impl Default for DocumentationWriter {
 impl ModelWriter for DocumentationWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
         let document = describe_model(model)?;
-        match write_document(
+        // The document writer ignores some failures of its output, so it gets one that has none.
+        match write_document_to_string(
             &document,
             OutputFormat::Markdown(MarkdownFlavor::CommonMark),
-            w,
         ) {
-            Ok(_) => Ok(()),
+            Ok(text) => {
+                w.write_all(text.as_bytes())?;
+                Ok(())
+            }
             Err(err) => Err(err.to_string().into()),
         }
     }
-- 
2.43.0


From d66181b87848147c52743548c035e45f86d8d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 71/77] fix: the command line tool fails if a file it is given
 does not exist

---
 cargo-atelier/src/actions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 64d3278..6888544 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -69,9 +69,11 @@ fn assemble_model(
     search_path: Option<SearchPath>,
 ) -> ModelResult<Model> {
     let mut assembler = ModelAssembler::new(FileTypeRegistry::default(), search_path);
-    input_files.iter().for_each(|pb| {
-        assembler.push(pb);
-    });
+    for path in &input_files {
+        // The assembler ignores paths that do not exist, as these may be part of a search path.
+        let _ = std::fs::metadata(path)?;
+        assembler.push(path);
+    }
     Model::try_from(assembler)
 }
 
-- 
2.43.0


From 49d5dd3fe3950e2b5ae887240d4abd6defaf1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 72/77] fix: a trait applied in the builder to the member of a
 list, set or map was lost if its name was written in another case

---
 atelier-core/src/builder/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 40a5ddb..febda28 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -764,7 +764,7 @@ fn apply_to_member(
 ) -> bool {
     match shape {
         TopLevelShapeBuilder::List(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
+            if member_name == &Identifier::new_unchecked(MEMBER_MEMBER) {
                 let _ = shape.member.apply_trait(a_trait);
                 true
             } else {
@@ -772,7 +772,7 @@ fn apply_to_member(
             }
         }
         TopLevelShapeBuilder::Set(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
+            if member_name == &Identifier::new_unchecked(MEMBER_MEMBER) {
                 let _ = shape.member.apply_trait(a_trait);
                 true
             } else {
@@ -780,10 +780,10 @@ fn apply_to_member(
             }
         }
         TopLevelShapeBuilder::Map(shape) => {
-            if member_name.to_string() == MEMBER_KEY {
+            if member_name == &Identifier::new_unchecked(MEMBER_KEY) {
                 let _ = shape.key.apply_trait(a_trait);
                 true
-            } else if member_name.to_string() == MEMBER_VALUE {
+            } else if member_name == &Identifier::new_unchecked(MEMBER_VALUE) {
                 let _ = shape.value.apply_trait(a_trait);
                 true
             } else {
-- 
2.43.0


From ab887f5766e23c64a08c2788906773aef307e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 73/77] fix: the JSON reader silently dropped members, traits,
 renames and identifiers whose names only differ in case

---
 atelier-json/src/reader.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index ba77ba9..6c30add 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -8,7 +8,7 @@ use atelier_core::model::shapes::{
     Service, ShapeKind, Simple, StructureOrUnion, TopLevelShape,
 };
 use atelier_core::model::values::{Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
@@ -241,11 +241,23 @@ impl JsonReader {
         for (k, v) in json {
             let id = ShapeID::from_str(k)?;
             let inner = self.value(v)?;
-            let _ = traits.insert(id, Some(inner));
+            if traits.insert(id, Some(inner)).is_some() {
+                return Err(self.repeated("JsonReader::traits", k));
+            }
         }
         Ok(traits)
     }
 
+    /// Names that only differ in case are the same name.
+    fn repeated(&self, location: &str, name: &str) -> atelier_core::error::Error {
+        ErrorKind::Deserialization(
+            REPRESENTATION_NAME.to_string(),
+            location.to_string(),
+            Some(format!("{:#?} is given twice", name)),
+        )
+        .into()
+    }
+
     fn members(&self, json: &Map<String, Value>) -> ModelResult<Vec<MemberShape>> {
         let mut members: Vec<MemberShape> = Default::default();
         for (k, v) in json {
@@ -264,6 +276,9 @@ impl JsonReader {
                 if let Some(traits) = self.optional_object(obj.get(ADD_SHAPE_KEY_TRAITS))? {
                     member.append_traits(&self.traits(traits)?)?;
                 }
+                if members.iter().any(|other| other.id() == member.id()) {
+                    return Err(self.repeated("JsonReader::members", k));
+                }
                 members.push(member);
             } else {
                 return Err(ErrorKind::Deserialization(
@@ -284,7 +299,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = ShapeID::from_str(obj_key)?;
                     let value = Identifier::from_str(&self.string_value(obj)?)?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return Err(self.repeated("JsonReader::renames_hash", obj_key));
+                    }
                 }
                 Ok(hash)
             } else {
@@ -310,7 +327,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return Err(self.repeated("JsonReader::identifiers_hash", obj_key));
+                    }
                 }
                 Ok(hash)
             } else {
-- 
2.43.0


From 9ca849e2b2bfae1854a4321fee9d16500bad3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 74/77] fix: the Smithy reader silently dropped renames and
 identifiers whose names only differ in case

---
 atelier-smithy/src/parser/smithy.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 24b1677..fb5a1ac 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -21,7 +21,7 @@ use atelier_core::Version;
 use pest::error::Error as PestError;
 use pest::iterators::Pair;
 use pest::Parser;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::io::Write;
 use std::str::FromStr;
@@ -605,9 +605,15 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 }
                 MEMBER_RENAME => {
                     if let NodeValue::Object(renames) = value {
+                        let mut renamed = HashSet::new();
                         for (shape_id, local_name) in renames {
                             let shape_id = unquoted(&shape_id);
-                            let _ = ShapeID::from_str(&shape_id)?;
+                            if !renamed.insert(ShapeID::from_str(&shape_id)?) {
+                                return ParserError::new("parse_service_statement")
+                                    .expecting("unique renames")
+                                    .context(&shape_id)
+                                    .into();
+                            }
                             let local_name = string_of(&local_name)?;
                             check_identifier(local_name)?;
                             let _ = service.rename(&shape_id, local_name);
@@ -681,9 +687,16 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
             match unquoted(&key).as_str() {
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
+                        let mut identified = HashSet::new();
                         for (id, target) in identifiers {
                             let id = unquoted(&id);
                             check_identifier(&id)?;
+                            if !identified.insert(Identifier::from_str(&id)?) {
+                                return ParserError::new("parse_resource_statement")
+                                    .expecting("unique identifiers")
+                                    .context(&id)
+                                    .into();
+                            }
                             let _ = resource.identifier(&id, shape_name_of(&target)?);
                         }
                     } else {
-- 
2.43.0


From 8b3055559778e714395c9cfdc3dcdfd5e6a85048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 75/77] fix: a command that failed emptied the output file it
 was given

---
 cargo-atelier/src/actions.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 6888544..a7edbaa 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,21 +83,18 @@ fn write_model(
     output_format: FileFormat,
     namespace: Option<String>,
 ) -> Result<(), Box<dyn Error>> {
-    let mut file: Box<dyn Write> = match output_file {
-        None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::create(file_name)?),
-    };
+    let mut output: Vec<u8> = Vec::new();
 
     match output_format {
-        FileFormat::Json => write_json(&mut file, model),
+        FileFormat::Json => write_json(&mut output, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
+                write_smithy(&mut output, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
                     write_smithy(
-                        &mut file,
+                        &mut output,
                         model,
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
@@ -106,8 +103,18 @@ fn write_model(
                 }
             }
         }
-        FileFormat::Uml => write_uml(&mut file, model),
+        FileFormat::Uml => write_uml(&mut output, model),
     }?;
+    write_output(output_file, &output)
+}
+
+/// Only once there is something to write is the output file replaced.
+fn write_output(output_file: Option<PathBuf>, output: &[u8]) -> Result<(), Box<dyn Error>> {
+    let mut file: Box<dyn Write> = match output_file {
+        None => Box::new(std::io::stdout()),
+        Some(file_name) => Box::new(File::create(file_name)?),
+    };
+    file.write_all(output)?;
     file.flush()?;
     Ok(())
 }
@@ -138,13 +145,9 @@ fn document_a_file(
 ) -> Result<(), Box<dyn Error>> {
     let document = describe_model(&input_model)?;
 
-    let mut file: Box<dyn Write> = match output_file {
-        None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::create(file_name)?),
-    };
-    write_document(&document, output_format, &mut file)?;
-    file.flush()?;
-    Ok(())
+    let mut output: Vec<u8> = Vec::new();
+    write_document(&document, output_format, &mut output)?;
+    write_output(output_file, &output)
 }
 
 fn write_json(w: &mut impl Write, model: &Model) -> Result<(), Box<dyn Error>> {
-- 
2.43.0


From a23947a64fd362a7b047199ea3864bc67e807566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 76/77] fix: report unwelcome terms in every model a linter
 checks, not just the first

---
 atelier-core/src/action/lint/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index 34968a7..2429618 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -204,6 +204,8 @@ linter_or_validator_action_impl! { UnwelcomeTerms, "UnwelcomeTerms" }
 
 impl Linter for UnwelcomeTerms {
     fn check(&mut self, model: &Model) -> ModelResult<()> {
+        // Each identifier is reported once in a model, whatever the models checked before held.
+        self.checked.borrow_mut().clear();
         for shape in model.shapes() {
             let shape_id = shape.id();
             self.check_shape_id(shape_id);
-- 
2.43.0


From a52c451b1c07c3bdaf0e6e0363edaa5a3879912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 77/77] fix: do not follow a linked directory back into itself
 when expanding paths

---
 atelier-assembler/src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 8d5651c..967d248 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -425,7 +425,7 @@ impl ModelAssembler {
     fn find_file_paths(&self) -> Result<Vec<PathBuf>> {
         let mut results = Vec::default();
         for path in &self.paths {
-            self.expand_path(path, &mut results)?;
+            self.expand_path(path, &mut Vec::default(), &mut results)?;
         }
         // The set of paths, and the content of directories, come in no particular order; also, a
         // file may be reached more than once.
@@ -443,7 +443,12 @@ impl ModelAssembler {
     }
 
     #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) -> Result<()> {
+    fn expand_path(
+        &self,
+        path: &PathBuf,
+        parents: &mut Vec<PathBuf>,
+        results: &mut Vec<PathBuf>,
+    ) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
         if path.is_file() {
             if let Some(extension) = path.extension() {
@@ -455,10 +460,19 @@ impl ModelAssembler {
             }
         } else if path.is_dir() {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
+            // A link may lead back to a directory that holds it; this is already being read, and to
+            // follow the link again, until the system refuses, ends in an error or not by chance.
+            let real_path = path.canonicalize()?;
+            if parents.contains(&real_path) {
+                debug!("ModelAssembler::expand_path - skipping dir path {:?}", path);
+                return Ok(());
+            }
+            parents.push(real_path);
             for entry in read_dir(path)? {
                 let entry = entry?;
-                self.expand_path(&entry.path(), results)?;
+                self.expand_path(&entry.path(), parents, results)?;
             }
+            let _ = parents.pop();
         }
         Ok(())
     }
-- 
2.43.0

