From e2e5c03efdc52ee029b213898c81c0dc06864113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 01/62] fix: accept integer values for variables of type ID

---
 bin/router/src/executor/variables/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/variables/mod.rs b/bin/router/src/executor/variables/mod.rs
index 862d20b..5826aba 100644
--- a/bin/router/src/executor/variables/mod.rs
+++ b/bin/router/src/executor/variables/mod.rs
@@ -162,7 +162,14 @@ fn validate_runtime_value(
                         }
                     }
                     "ID" => {
-                        if let ValueRef::String(_) = value {
+                        // https://spec.graphql.org/draft/#sec-ID.Input-Coercion
+                        // both strings and integers are valid inputs for ID
+                        let is_valid = match value {
+                            ValueRef::String(_) => true,
+                            ValueRef::Number(ref num) => num.is_i64() || num.is_u64(),
+                            _ => false,
+                        };
+                        if is_valid {
                             Ok(())
                         } else {
                             Err(VariableCoercionError::ExpectedId {
-- 
2.43.0


From 348b76870ef34785424bd861d58d6b1d0f23ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 02/62] fix: resolve the concrete type behind an aliased or
 conditional __typename

---
 bin/router/src/executor/projection/plan.rs    |  5 +++
 .../query_planner/ast/normalization/mod.rs    | 41 ++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 9ab0889..77f7fc3 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -278,6 +278,11 @@ impl FieldProjectionPlan {
 
         for selection_item in &selection_set.items {
             match selection_item {
+                SelectionItem::Field(field)
+                    if field.omit_from_response && field.name == TYPENAME_FIELD_NAME =>
+                {
+                    // Selected by the router for itself, not by the client.
+                }
                 SelectionItem::Field(field) => {
                     Self::process_field(
                         field,
diff --git a/bin/router/src/query_planner/ast/normalization/mod.rs b/bin/router/src/query_planner/ast/normalization/mod.rs
index 845d2a9..126b7c9 100644
--- a/bin/router/src/query_planner/ast/normalization/mod.rs
+++ b/bin/router/src/query_planner/ast/normalization/mod.rs
@@ -20,7 +20,9 @@ use crate::query_planner::ast::normalization::pipeline::type_expand;
 use crate::query_planner::ast::normalization::pipeline::{
     drop_duplicated_fields, drop_fragment_definitions,
 };
-use crate::query_planner::state::supergraph_state::{OperationKind, SupergraphState};
+use crate::query_planner::state::supergraph_state::{
+    OperationKind, SupergraphDefinition, SupergraphState,
+};
 use error::NormalizationError;
 
 /// Normalizes the operation by mutating it
@@ -156,7 +158,26 @@ fn inject_skipped_typename_for_selection_set(
                     field_type_name,
                     supergraph,
                 );
-                if field.selections.items.is_empty() {
+                // The concrete type of an abstract field is read from the `__typename` of its value,
+                // which an aliased or conditional `__typename` does not guarantee to be there.
+                let lacks_runtime_typename = supergraph
+                    .definitions
+                    .get(field_type_name)
+                    .is_some_and(|definition| {
+                        matches!(
+                            definition,
+                            SupergraphDefinition::Interface(_) | SupergraphDefinition::Union(_)
+                        )
+                    })
+                    && selects_unreliable_typename(&field.selections)
+                    && !field.selections.items.iter().any(|item| {
+                        matches!(item, SelectionItem::Field(f)
+                            if f.name == "__typename"
+                                && f.alias.is_none()
+                                && f.skip_if.is_none()
+                                && f.include_if.is_none())
+                    });
+                if field.selections.items.is_empty() || lacks_runtime_typename {
                     field
                         .selections
                         .items
@@ -177,6 +198,22 @@ fn inject_skipped_typename_for_selection_set(
     }
 }
 
+/// Checks whether `__typename` is selected under an alias, or only conditionally.
+fn selects_unreliable_typename(selection_set: &ast::selection_set::SelectionSet) -> bool {
+    use ast::selection_item::SelectionItem;
+
+    selection_set.items.iter().any(|item| match item {
+        SelectionItem::Field(field) => {
+            field.name == "__typename"
+                && (field.alias.is_some() || field.skip_if.is_some() || field.include_if.is_some())
+        }
+        SelectionItem::InlineFragment(fragment) => {
+            selects_unreliable_typename(&fragment.selections)
+        }
+        SelectionItem::FragmentSpread(_) => false,
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use graphql_tools::parser::parse_query;
-- 
2.43.0


From b1e686358a687726fff394405db1d4395398f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 03/62] fix: keep a field selected directly and within a
 fragment on the field's own abstract type

---
 bin/router/src/executor/projection/plan.rs | 37 ++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index 77f7fc3..f626aac 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -354,6 +354,8 @@ impl FieldProjectionPlan {
         let mut resolved = Vec::new();
 
         for (_, variants) in field_selections {
+            let variants =
+                Self::merge_unconditional_variants(variants, parent_type_name, schema_metadata);
             let already_exclusive = variants.len() == 1
                 || variants
                     .iter()
@@ -395,6 +397,41 @@ impl FieldProjectionPlan {
         resolved
     }
 
+    /// Merges the variants that apply to every possible type of the parent into the one without a guard.
+    ///
+    /// A guard that accepts the parent type itself (`... on Content` inside of a field of type `Content`)
+    /// excludes nothing. Telling such variants apart from the unguarded one would scope both to concrete
+    /// types, and the `__typename` needed to pick one of them is not necessarily part of the data.
+    fn merge_unconditional_variants(
+        variants: Vec<FieldProjectionPlan>,
+        parent_type_name: &str,
+        schema_metadata: &SchemaMetadata,
+    ) -> Vec<FieldProjectionPlan> {
+        if variants.len() < 2 || variants.iter().all(|v| v.parent_type_guard.is_some()) {
+            return variants;
+        }
+
+        let mut merged: Vec<FieldProjectionPlan> = Vec::with_capacity(variants.len());
+        for mut variant in variants {
+            if variant
+                .parent_type_guard
+                .as_ref()
+                .is_some_and(|guard| guard.matches(parent_type_name))
+            {
+                variant.parent_type_guard = None;
+            }
+            match merged.iter_mut().find(|existing| {
+                existing.parent_type_guard.is_none() && variant.parent_type_guard.is_none()
+            }) {
+                Some(existing) => {
+                    Self::merge_matching(existing, variant, parent_type_name, schema_metadata)
+                }
+                None => merged.push(variant),
+            }
+        }
+        merged
+    }
+
     /// Merges every variant whose guard matches `concrete_type` into a single
     /// plan scoped to `Exact(concrete_type)`. Returns `None` when no variant
     /// applies to that type.
-- 
2.43.0


From 7f1570ed374fa364224370e33e48122c427043ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 04/62] fix: keep the narrower type condition of nested inline
 fragments when projecting

---
 bin/router/src/executor/projection/plan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index f626aac..ea0d726 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -1052,9 +1052,13 @@ impl FieldProjectionPlan {
             inline_fragment_type,
             &condition_for_fragment,
         ) {
-            // Update the type guard for all selections from this fragment
+            // Update the type guard for all selections from this fragment,
+            // the ones from a fragment nested in it keep their own, narrower, guard
             for selection in &mut inline_fragment_selections {
-                selection.parent_type_guard = Some(type_condition.clone());
+                selection.parent_type_guard = Some(match selection.parent_type_guard.take() {
+                    Some(nested_guard) => nested_guard.intersect(type_condition.clone()),
+                    None => type_condition.clone(),
+                });
             }
 
             for selection in inline_fragment_selections {
-- 
2.43.0


From 674418ec9a52a4ef78e62603e353b5e84c696d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 05/62] fix: keep null items of lists in representations of
 entities

---
 bin/router/src/executor/projection/request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/router/src/executor/projection/request.rs b/bin/router/src/executor/projection/request.rs
index 6680df3..b44f703 100644
--- a/bin/router/src/executor/projection/request.rs
+++ b/bin/router/src/executor/projection/request.rs
@@ -83,6 +83,13 @@ pub fn project_requires(
                 if projected {
                     // Only update `first` if we actually write something
                     first = false;
+                } else if entity_item.is_null() {
+                    // A null item keeps its place in the list
+                    if !first {
+                        buffer.put(COMMA);
+                    }
+                    buffer.put(NULL);
+                    first = false;
                 }
             }
             buffer.put(CLOSE_BRACKET);
-- 
2.43.0


From df893d7cd28e4e36042be24261888eaecab87aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 06/62] fix: follow flatten paths through lists of lists

---
 bin/router/src/executor/utils/traverse.rs | 29 +++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/utils/traverse.rs b/bin/router/src/executor/utils/traverse.rs
index a09454c..7c6a145 100644
--- a/bin/router/src/executor/utils/traverse.rs
+++ b/bin/router/src/executor/utils/traverse.rs
@@ -35,7 +35,13 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                 let current_error_path_for_index = current_error_path
                     .as_ref()
                     .map(|current_error_path| current_error_path.concat_index(index));
-                callback(item, current_error_path_for_index);
+                traverse_and_callback_mut(
+                    item,
+                    remaining_path,
+                    schema_metadata,
+                    current_error_path_for_index,
+                    callback,
+                );
             }
         } else {
             // If the path is empty and current_data is not an array, just call the callback
@@ -81,6 +87,20 @@ pub fn traverse_and_callback_mut<'a, Callback>(
                         callback,
                     );
                 }
+            } else if let Value::Array(arr) = current_data {
+                // A list of lists has a single `@` in the path, so we look into the inner lists here
+                for (index, item) in arr.iter_mut().enumerate() {
+                    let current_error_path_for_index = current_error_path
+                        .as_ref()
+                        .map(|current_error_path| current_error_path.concat_index(index));
+                    traverse_and_callback_mut(
+                        item,
+                        remaining_path,
+                        schema_metadata,
+                        current_error_path_for_index,
+                        callback,
+                    );
+                }
             }
         }
         FlattenNodePathSegment::TypeCondition(type_condition) => {
@@ -137,7 +157,7 @@ pub fn traverse_and_callback<'a, Callback>(
     if remaining_path.is_empty() {
         if let Value::Array(arr) = current_data {
             for item in arr.iter() {
-                callback(item);
+                traverse_and_callback(item, remaining_path, possible_types, callback);
             }
         } else {
             callback(current_data);
@@ -161,6 +181,11 @@ pub fn traverse_and_callback<'a, Callback>(
                     let rest_of_path = &remaining_path[1..];
                     traverse_and_callback(next_data, rest_of_path, possible_types, callback);
                 }
+            } else if let Value::Array(arr) = current_data {
+                // A list of lists has a single `@` in the path, so we look into the inner lists here
+                for item in arr.iter() {
+                    traverse_and_callback(item, remaining_path, possible_types, callback);
+                }
             }
         }
         FlattenNodePathSegment::TypeCondition(type_condition) => {
-- 
2.43.0


From 215fb5fc9e632eb96e99d7cd2aa651583e693c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 07/62] fix: plan fragments on a union inside of a field of the
 same union

---
 bin/router/src/query_planner/graph/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/router/src/query_planner/graph/mod.rs b/bin/router/src/query_planner/graph/mod.rs
index 8ea58b3..27808a9 100644
--- a/bin/router/src/query_planner/graph/mod.rs
+++ b/bin/router/src/query_planner/graph/mod.rs
@@ -807,6 +807,10 @@ impl Graph {
                                 ),
                             );
 
+                            // same for the self-referencing edge, it's how `... on Union @include(if: $var)`
+                            // inside of a field of the very same union is resolved
+                            self.upsert_edge(tail, tail, Edge::Selfie(target_type.to_string()));
+
                             trace!(
                                 "  [x] Creating field move edge '{}.{}/{}' (type: String)",
                                 def_name,
-- 
2.43.0


From 58a06290f51b1b8d1d1f196e38352a9e5477fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 08/62] fix: keep separate @provides of one subgraph apart

---
 bin/router/src/query_planner/graph/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/query_planner/graph/mod.rs b/bin/router/src/query_planner/graph/mod.rs
index 27808a9..bb568ae 100644
--- a/bin/router/src/query_planner/graph/mod.rs
+++ b/bin/router/src/query_planner/graph/mod.rs
@@ -1105,10 +1105,11 @@ impl Graph {
 
     #[instrument(level = "trace", skip(self, state))]
     fn build_viewed_field_edges(&mut self, state: &SupergraphState) -> Result<(), GraphError> {
+        // Identifies a single usage of `@provides`, two usages must never share the nodes of a view.
+        let mut view_id = 0;
+
         for (def_name, definition) in state.definitions.iter() {
             for join_type in definition.join_types().iter() {
-                let mut view_id = 0;
-
                 // A map of provided types to graph ids that
                 // we need to create edges to their matching entity types.
                 let mut connection_to_build: HashMap<NodeIndex, String> = HashMap::new();
-- 
2.43.0


From 8e128e8afb26fd23a401f2864ba6a36b7237be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:44 +0000
Subject: [PATCH 09/62] fix: plan @requires fields of an entity nested in the
 same entity type

---
 .../src/query_planner/planner/fetch/fetch_graph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
index eafea48..238cdb1 100644
--- a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
+++ b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
@@ -1519,10 +1519,18 @@ fn process_requires_field_edge(
     )?;
 
     let parent_fetch_step = fetch_graph.get_step_data(parent_fetch_step_index)?;
+    // The parent may resolve the same type, but higher in the response (`type User { friend: User }`),
+    // its output at the current path is then a regular one, not an output of the entity call itself.
+    let is_nested_in_parent = response_path
+        .inner
+        .iter()
+        .skip(parent_fetch_step.response_path.len())
+        .any(|segment| matches!(segment, Segment::Field(..)));
     // In case of a field with `@requires`, the parent will be the current subgraph we're in.
-    let real_parent_fetch_step_index = match !parent_fetch_step
-        .output
-        .is_selecting_definition(head_type_name)
+    let real_parent_fetch_step_index = match is_nested_in_parent
+        || !parent_fetch_step
+            .output
+            .is_selecting_definition(head_type_name)
     {
         // If the parent's output resolves a different type, then it's a root type.
         // We can use that as a parent.
-- 
2.43.0


From 5d1d6714c618fc4a380b8469e83b90d7355f089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 10/62] fix: keep an always selected leaf next to a conditional
 fragment

---
 bin/router/src/executor/projection/plan.rs | 42 ++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index ea0d726..e14f10d 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -228,6 +228,20 @@ impl FieldProjectionCondition {
     }
 }
 
+impl FieldProjectionCondition {
+    fn depends_on_variables(&self) -> bool {
+        use FieldProjectionCondition::*;
+
+        match self {
+            IncludeIfVariable(_) | SkipIfVariable(_) => true,
+            ParentTypeCondition(_) | FieldTypeCondition(_) | EnumValuesCondition(_) => false,
+            Or(left, right) | And(left, right) => {
+                left.depends_on_variables() || right.depends_on_variables()
+            }
+        }
+    }
+}
+
 impl FieldProjectionPlan {
     #[instrument(level = "trace", skip_all)]
     pub fn from_operation<'a>(
@@ -356,6 +370,7 @@ impl FieldProjectionPlan {
         for (_, variants) in field_selections {
             let variants =
                 Self::merge_unconditional_variants(variants, parent_type_name, schema_metadata);
+            let variants = Self::drop_covered_leaf_variants(variants);
             let already_exclusive = variants.len() == 1
                 || variants
                     .iter()
@@ -432,6 +447,33 @@ impl FieldProjectionPlan {
         merged
     }
 
+    /// A leaf that is always selected is there no matter whether the conditional variants apply,
+    /// telling them apart would need a `__typename` that is not necessarily part of the data.
+    fn drop_covered_leaf_variants(variants: Vec<FieldProjectionPlan>) -> Vec<FieldProjectionPlan> {
+        let is_conditional = |variant: &FieldProjectionPlan| {
+            variant
+                .conditions
+                .as_ref()
+                .is_some_and(|conditions| conditions.depends_on_variables())
+        };
+        if !variants.iter().any(is_conditional) {
+            return variants;
+        }
+
+        let covers_all = |variant: &FieldProjectionPlan| {
+            variant.parent_type_guard.is_none()
+                && matches!(
+                    variant.value,
+                    ProjectionValueSource::ResponseData { selections: None }
+                )
+                && !is_conditional(variant)
+        };
+        match variants.iter().position(covers_all) {
+            Some(index) => variants.into_iter().skip(index).take(1).collect(),
+            None => variants,
+        }
+    }
+
     /// Merges every variant whose guard matches `concrete_type` into a single
     /// plan scoped to `Exact(concrete_type)`. Returns `None` when no variant
     /// applies to that type.
-- 
2.43.0


From 866210824ea6c6fc6c2f6a91fb58dab59514e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 11/62] fix: plan conditional fragments on types reached
 through an interface object

---
 .../src/query_planner/planner/walker/mod.rs   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/query_planner/planner/walker/mod.rs b/bin/router/src/query_planner/planner/walker/mod.rs
index dfab458..95cb318 100644
--- a/bin/router/src/query_planner/planner/walker/mod.rs
+++ b/bin/router/src/query_planner/planner/walker/mod.rs
@@ -277,7 +277,7 @@ fn process_inline_fragment<'graph, 'op: 'graph>(
             let _enter = path_span.enter();
 
             // Find a direct path that references the same type as the current tail,
-            let direct_path = find_self_referencing_direct_path(
+            match find_self_referencing_direct_path(
                 graph,
                 supergraph,
                 override_context,
@@ -285,11 +285,22 @@ fn process_inline_fragment<'graph, 'op: 'graph>(
                 &fragment.type_condition,
                 condition.as_ref().expect("Condition should be present"),
                 cancellation_token,
-            )?;
-
-            trace!("advanced: {}", path.pretty_print(graph));
+            ) {
+                Ok(direct_path) => {
+                    trace!("advanced: {}", path.pretty_print(graph));
+                    next_paths.push(direct_path);
+                }
+                // Only the tail of the first path is known to be of that type,
+                // other paths may have reached it through an interface object.
+                Err(WalkOperationError::NoPathsFound(_)) => {}
+                Err(err) => return Err(err),
+            }
+        }
 
-            next_paths.push(direct_path);
+        if next_paths.is_empty() {
+            return Err(WalkOperationError::NoPathsFound(
+                fragment.type_condition.to_string(),
+            ));
         }
 
         // Now process the selections under the fragment using the advanced paths
-- 
2.43.0


From 668530f510a6b6520e207fd6bf691e64e35b7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 12/62] fix: plan nested @requires fields whose fetch has
 several parents

---
 .../planner/fetch/fetch_graph.rs              | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
index 238cdb1..7b25efb 100644
--- a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
+++ b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
@@ -1481,24 +1481,13 @@ fn process_requires_field_edge(
     query_node: &QueryTreeNode,
     parent_fetch_step_index: NodeIndex,
     response_path: &MergePath,
+    fetch_path: &MergePath,
     requiring_fetch_step_index: Option<NodeIndex>,
     field_move: &FieldMove,
     edge_index: EdgeIndex,
     condition: Option<&Condition>,
     created_from_requires: bool,
 ) -> Result<Vec<NodeIndex>, FetchGraphError> {
-    if fetch_graph.parents_of(parent_fetch_step_index).count() != 1 {
-        return Err(FetchGraphError::NonSingleParent(
-            parent_fetch_step_index.index(),
-        ));
-    }
-
-    let parent_parent_index = fetch_graph
-        .parents_of(parent_fetch_step_index)
-        .next()
-        .map(|edge| edge.source())
-        .unwrap();
-
     let requires = field_move
         .requirements
         .as_ref()
@@ -1547,7 +1536,18 @@ fn process_requires_field_edge(
         // }
         //
         // We need to stick to the parent of the parent.
-        false => parent_parent_index,
+        false => {
+            if fetch_graph.parents_of(parent_fetch_step_index).count() != 1 {
+                return Err(FetchGraphError::NonSingleParent(
+                    parent_fetch_step_index.index(),
+                ));
+            }
+            fetch_graph
+                .parents_of(parent_fetch_step_index)
+                .next()
+                .map(|edge| edge.source())
+                .unwrap()
+        }
     };
 
     // When a field (foo) is annotated with `@requires(fields: "bar")`
@@ -1636,7 +1636,9 @@ fn process_requires_field_edge(
 
     let real_parent_fetch_step = fetch_graph.get_step_data_mut(real_parent_fetch_step_index)?;
 
-    let key_to_reenter_at = if real_parent_fetch_step.response_path.len() > response_path.len() {
+    let key_to_reenter_at = if real_parent_fetch_step_index == parent_fetch_step_index {
+        fetch_path
+    } else if real_parent_fetch_step.response_path.len() > response_path.len() {
         return Err(FetchGraphError::Internal(
             "Response path is longer than expected".to_string(),
         ));
@@ -1909,6 +1911,7 @@ fn process_query_node(
                     query_node,
                     parent_fetch_step_index,
                     response_path,
+                    fetch_path,
                     requiring_fetch_step_index,
                     field,
                     edge_index,
-- 
2.43.0


From 7598edf0761f1614f6b701df2ffa59485bd96d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:58 +0000
Subject: [PATCH 13/62] fix: detect composite fields with conflicting list or
 null wrappers

---
 bin/router/src/query_planner/ast/mismatch_finder.rs    |  5 ++++-
 bin/router/src/query_planner/state/supergraph_state.rs | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/query_planner/ast/mismatch_finder.rs b/bin/router/src/query_planner/ast/mismatch_finder.rs
index d7b45ff..8adb285 100644
--- a/bin/router/src/query_planner/ast/mismatch_finder.rs
+++ b/bin/router/src/query_planner/ast/mismatch_finder.rs
@@ -193,7 +193,10 @@ fn handle_field<'field, 'schema>(
                 .get(field_type.inner_type())
                 .is_some_and(|v| v.is_composite_type());
 
-            if !left_is_composite || !right_is_composite {
+            if !left_is_composite
+                || !right_is_composite
+                || !maybe_conflicting_type.is_wrapped_like(field_type)
+            {
                 trace!(
                   "found a conflicting type for a selection field '{}', conflict is: '{}' <-> '{}', path: {}",
                   field_identifier,
diff --git a/bin/router/src/query_planner/state/supergraph_state.rs b/bin/router/src/query_planner/state/supergraph_state.rs
index e34c4ce..7c5e0af 100644
--- a/bin/router/src/query_planner/state/supergraph_state.rs
+++ b/bin/router/src/query_planner/state/supergraph_state.rs
@@ -1137,6 +1137,16 @@ impl TypeNode {
             _ => false,
         }
     }
+
+    /// Checks if both types have the same list and non-null wrappers, no matter what they wrap.
+    pub fn is_wrapped_like(&self, other: &TypeNode) -> bool {
+        match (self, other) {
+            (TypeNode::List(left), TypeNode::List(right)) => left.is_wrapped_like(right),
+            (TypeNode::NonNull(left), TypeNode::NonNull(right)) => left.is_wrapped_like(right),
+            (TypeNode::Named(_), TypeNode::Named(_)) => true,
+            _ => false,
+        }
+    }
 }
 
 impl Display for TypeNode {
-- 
2.43.0


From 87341008c699fbffde5b136c3dac52a4210080f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 14/62] fix: do not let repeated selections cancel each other
 out when minifying

---
 bin/router/src/query_planner/ast/hash.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 3af0921..7405c5d 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -108,13 +108,14 @@ impl ASTHash for SelectionSet {
             let mut combined_hash: u64 = 0;
             let build_hasher = FxBuildHasher;
 
-            // To achieve an order-independent hash, we hash each key-value pair
-            // individually and then combine their hashes using XOR (^).
-            // Since XOR is commutative, the final hash is not affected by the iteration order.
+            // To achieve an order-independent hash, we hash each selection
+            // individually and then combine their hashes by adding them up.
+            // Since addition is commutative, the final hash is not affected by the iteration order.
+            // XOR is not an option here, selections that are repeated would cancel each other out.
             for item in &self.items {
                 let mut key_val_hasher = build_hasher.build_hasher();
                 item.ast_hash::<_, ORDER_INDEPENDENT>(&mut key_val_hasher);
-                combined_hash ^= key_val_hasher.finish();
+                combined_hash = combined_hash.wrapping_add(key_val_hasher.finish());
             }
 
             hasher.write_u64(combined_hash);
-- 
2.43.0


From 732b8146130a4047fc6788c658352015b6c91c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 15/62] fix: do not send entity representations without
 __typename

---
 bin/router/src/executor/execution/plan.rs | 46 ++++++++++++++---------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index b673473..6a04ff1 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -78,11 +78,21 @@ use crate::executor::{
         value::Value,
     },
     utils::{
-        consts::{CLOSE_BRACKET, OPEN_BRACKET},
+        consts::{CLOSE_BRACKET, OPEN_BRACKET, TYPENAME_FIELD_NAME},
         traverse::{traverse_and_callback, traverse_and_callback_mut},
     },
 };
 
+/// An entity whose `__typename` was not fetched, because the fetch of it was conditional,
+/// cannot be represented: `_Any` requires `__typename`.
+fn has_typename(entity: &Value) -> bool {
+    entity.as_object().is_none_or(|fields| {
+        fields
+            .iter()
+            .any(|(key, value)| *key == TYPENAME_FIELD_NAME && !value.is_null())
+    })
+}
+
 pub type VariablesMap = HashMap<String, sonic_rs::Value>;
 
 #[derive(Debug, Default, Serialize)]
@@ -1011,14 +1021,15 @@ impl<'exec> Executor<'exec> {
                             entity
                         };
 
-                        let is_projected = project_requires(
-                            possible_types,
-                            &requires_nodes.items,
-                            entity,
-                            &mut filtered_representations,
-                            is_first_representation,
-                            None,
-                        );
+                        let is_projected = has_typename(entity)
+                            && project_requires(
+                                possible_types,
+                                &requires_nodes.items,
+                                entity,
+                                &mut filtered_representations,
+                                is_first_representation,
+                                None,
+                            );
 
                         if is_projected {
                             vacant_entry.insert(index);
@@ -1548,14 +1559,15 @@ impl<'exec> Executor<'exec> {
                         entity
                     };
 
-                    let is_projected = project_requires(
-                        possible_types,
-                        &alias_spec.requires.items,
-                        entity,
-                        &mut filtered_representations,
-                        is_first_representation,
-                        None,
-                    );
+                    let is_projected = has_typename(entity)
+                        && project_requires(
+                            possible_types,
+                            &alias_spec.requires.items,
+                            entity,
+                            &mut filtered_representations,
+                            is_first_representation,
+                            None,
+                        );
 
                     if is_projected {
                         vacant_entry.insert(index);
-- 
2.43.0


From 3f7bf976bb1aac111a083c64b96f416cc239b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 16/62] fix: keep the condition of a field whose children need
 another fetch

---
 .../src/query_planner/planner/fetch/fetch_graph.rs     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
index 7b25efb..b82b898 100644
--- a/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
+++ b/bin/router/src/query_planner/planner/fetch/fetch_graph.rs
@@ -1383,8 +1383,16 @@ fn process_plain_field_edge(
         false
     };
 
+    // A field of the operation keeps its condition, unless the whole step depends on it.
+    // A field the children of the step require is not part of the response, no matter what.
     let ancestor_of_condition = match condition {
-        Some(c) => fetch_graph.is_ancestor_of_condition(parent_fetch_step_index, c),
+        Some(c) if created_from_requires => {
+            fetch_graph.is_ancestor_of_condition(parent_fetch_step_index, c)
+        }
+        Some(c) => {
+            let parent_fetch_step = fetch_graph.get_step_data(parent_fetch_step_index)?;
+            parent_fetch_step.condition.as_ref() == Some(c)
+        }
         None => false,
     };
 
-- 
2.43.0


From 25f6c0f27e7fa8e16b1227d6ff2fbb9b7c5cfb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 17/62] fix: do not answer __typename with the name of an
 abstract type

---
 bin/router/src/executor/projection/response.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index 2478d9d..a9f9b6a 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -382,10 +382,19 @@ fn project_selection_set_with_map<'a>(
                     ProjectionValueSource::ResponseData { .. } => {
                         if plan.is_typename {
                             // If the field is TYPENAME_FIELD, we should set it to the parent type name
-                            buffer.put(QUOTE);
-                            buffer.put(parent_type_name.get()?.as_bytes());
-                            buffer.put(QUOTE);
-                            NullPropagationDecision::KeepNullValue
+                            let type_name = parent_type_name.get()?;
+                            if schema_metadata.is_interface_type(type_name)
+                                || schema_metadata.is_union_type(type_name)
+                            {
+                                // The concrete type was not fetched (the fetch of it failed)
+                                buffer.put(NULL);
+                                NullPropagationDecision::PropagateNullValue
+                            } else {
+                                buffer.put(QUOTE);
+                                buffer.put(type_name.as_bytes());
+                                buffer.put(QUOTE);
+                                NullPropagationDecision::KeepNullValue
+                            }
                         } else if let Some(field_val) = field_val {
                             project_selection_set(
                                 field_val,
-- 
2.43.0


From 0e07b51ed5f1dae81ddb792a26e30bef04742833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 18/62] fix: do not merge sibling fetches which an earlier
 merge made dependent on each other

---
 .../planner/fetch/optimize/merge_siblings.rs             | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bin/router/src/query_planner/planner/fetch/optimize/merge_siblings.rs b/bin/router/src/query_planner/planner/fetch/optimize/merge_siblings.rs
index b07b25c..c663e8e 100644
--- a/bin/router/src/query_planner/planner/fetch/optimize/merge_siblings.rs
+++ b/bin/router/src/query_planner/planner/fetch/optimize/merge_siblings.rs
@@ -92,6 +92,15 @@ impl FetchGraph<MultiTypeFetchStep> {
                     .get(&other_child_index)
                     .ok_or(FetchGraphError::IndexMappingLost)?;
 
+                // Previous merges may have turned the two steps into the same step,
+                // or made one depend on the other. Merging them then would create a cycle.
+                if child_index_latest == other_child_index_latest
+                    || self
+                        .is_ancestor_or_descendant(*child_index_latest, *other_child_index_latest)
+                {
+                    continue;
+                }
+
                 perform_fetch_step_merge(
                     *child_index_latest,
                     *other_child_index_latest,
-- 
2.43.0


From 05aaf1dcc2b9dbf9aac8bb098b4f009a29967911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:23 +0000
Subject: [PATCH 19/62] fix: do not let a query parse error point into the text
 it outlives

---
 lib/graphql-tools/src/parser/query/error.rs | 29 ++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/graphql-tools/src/parser/query/error.rs b/lib/graphql-tools/src/parser/query/error.rs
index b8071e3..a774aea 100644
--- a/lib/graphql-tools/src/parser/query/error.rs
+++ b/lib/graphql-tools/src/parser/query/error.rs
@@ -1,6 +1,6 @@
 use std::fmt::Display;
 
-use combine::easy::Errors;
+use combine::easy::{Error as EasyError, Errors, Info};
 use thiserror::Error;
 
 use crate::parser::position::Pos;
@@ -15,10 +15,33 @@ pub type InternalError<'a> = Errors<Token<'a>, Token<'a>, Pos>;
 #[derive(Error, Debug)]
 pub struct ParseError(pub InternalError<'static>);
 
+fn owned_info<'a>(info: Info<Token<'a>, Token<'a>>) -> Info<Token<'static>, Token<'static>> {
+    match info {
+        // same text as `Display` of `Info::Token` and `Info::Range`
+        Info::Token(token) | Info::Range(token) => Info::Owned(format!("`{}`", token)),
+        Info::Owned(text) => Info::Owned(text),
+        Info::Static(text) => Info::Static(text),
+    }
+}
+
 impl<'a> From<InternalError<'a>> for ParseError {
     fn from(e: InternalError<'a>) -> ParseError {
-        let e = unsafe { std::mem::transmute::<InternalError<'a>, InternalError<'static>>(e) };
-        ParseError(e)
+        // The tokens point into the parsed text, which the error may outlive.
+        let errors = e
+            .errors
+            .into_iter()
+            .map(|error| match error {
+                EasyError::Unexpected(info) => EasyError::Unexpected(owned_info(info)),
+                EasyError::Expected(info) => EasyError::Expected(owned_info(info)),
+                EasyError::Message(info) => EasyError::Message(owned_info(info)),
+                EasyError::Other(other) => EasyError::Other(other),
+            })
+            .collect();
+
+        ParseError(Errors {
+            position: e.position,
+            errors,
+        })
     }
 }
 
-- 
2.43.0


From dfac2c75301ab1fa11f4b1c8621b3c2766d53d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 20/62] fix: validate list and object literals of leaf types,
 items of non-null lists and the range of Int literals

---
 .../src/ast/operation_visitor.rs              | 13 ++++--
 .../rules/values_of_correct_type.rs           | 40 +++++++++++++++++--
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/lib/graphql-tools/src/ast/operation_visitor.rs b/lib/graphql-tools/src/ast/operation_visitor.rs
index a0919ec..4ce5323 100644
--- a/lib/graphql-tools/src/ast/operation_visitor.rs
+++ b/lib/graphql-tools/src/ast/operation_visitor.rs
@@ -276,9 +276,16 @@ fn visit_input_value<'a, Visitor, UserContext>(
         Value::List(v) => {
             visitor.enter_list_value(context, user_context, v);
 
-            let input_type = context.current_input_type_literal().and_then(|t| match t {
-                Type::ListType(inner_type) => Some(inner_type.as_ref()),
-                _ => None,
+            let input_type = context.current_input_type_literal().and_then(|t| {
+                let nullable_type = match t {
+                    Type::NonNullType(inner_type) => inner_type.as_ref(),
+                    t => t,
+                };
+
+                match nullable_type {
+                    Type::ListType(inner_type) => Some(inner_type.as_ref()),
+                    _ => None,
+                }
             });
 
             context.with_input_type(input_type, |context| {
diff --git a/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs b/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
index 3adc4ec..879acc5 100644
--- a/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
+++ b/lib/graphql-tools/src/validation/rules/values_of_correct_type.rs
@@ -1,6 +1,6 @@
 use crate::parser::schema::TypeDefinition;
 
-use crate::static_graphql::query::Value;
+use crate::static_graphql::query::{Type, Value};
 use crate::validation::utils::ValidationError;
 use crate::{
     ast::{OperationVisitor, OperationVisitorContext},
@@ -49,8 +49,12 @@ impl ValuesOfCorrectType {
 
                 if let TypeDefinition::Scalar(scalar_type_def) = &type_def {
                     match (scalar_type_def.name.as_ref(), raw_value) {
-                        ("Int", Value::Int(_))
-                        | ("ID", Value::Int(_))
+                        ("Int", Value::Int(number))
+                            if number.as_i64().is_some_and(|n| i32::try_from(n).is_ok()) =>
+                        {
+                            return
+                        }
+                        ("ID", Value::Int(_))
                         | ("ID", Value::String(_))
                         | ("Float", Value::Int(_))
                         | ("Float", Value::Float(_))
@@ -120,12 +124,42 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for ValuesOfCorrectTyp
         }
     }
 
+    fn enter_list_value(
+        &mut self,
+        visitor_context: &mut OperationVisitorContext<'doc>,
+        user_context: &mut ValidationErrorContext,
+        list_value: &Vec<Value>,
+    ) {
+        let expects_list = match visitor_context.current_input_type_literal() {
+            Some(Type::NonNullType(inner_type)) => matches!(**inner_type, Type::ListType(_)),
+            Some(Type::ListType(_)) => true,
+            _ => false,
+        };
+
+        if !expects_list {
+            self.validate_value(
+                visitor_context,
+                user_context,
+                &Value::List(list_value.clone()),
+            );
+        }
+    }
+
     fn enter_object_value(
         &mut self,
         visitor_context: &mut OperationVisitorContext<'doc>,
         user_context: &mut ValidationErrorContext,
         object_value: &[(String, Value)],
     ) {
+        if visitor_context
+            .current_input_type()
+            .is_some_and(|t| t.is_leaf_type())
+        {
+            let object_value = object_value.iter().cloned().collect();
+            self.validate_value(visitor_context, user_context, &Value::Object(object_value));
+            return;
+        }
+
         if let Some(TypeDefinition::InputObject(input_object_def)) =
             visitor_context.current_input_type()
         {
-- 
2.43.0


From cbf0e1a603af6546a98ba38491315fa6040883af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 21/62] fix: count the root fields of a subscription by
 response name

---
 lib/graphql-tools/src/ast/collect_fields.rs                   | 4 +++-
 .../src/validation/rules/single_field_subscriptions.rs        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/graphql-tools/src/ast/collect_fields.rs b/lib/graphql-tools/src/ast/collect_fields.rs
index a44973c..e519807 100644
--- a/lib/graphql-tools/src/ast/collect_fields.rs
+++ b/lib/graphql-tools/src/ast/collect_fields.rs
@@ -69,7 +69,9 @@ fn collect_fields_inner<'a>(
 ) {
     selection_set.items.iter().for_each(|item| match item {
         Selection::Field(f) => {
-            let existing = result_arr.entry(f.name.clone()).or_default();
+            let existing = result_arr
+                .entry(f.alias.as_ref().unwrap_or(&f.name).clone())
+                .or_default();
             existing.push(f.clone());
         }
         Selection::InlineFragment(f) => {
diff --git a/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs b/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
index 83be794..47bada4 100644
--- a/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
+++ b/lib/graphql-tools/src/validation/rules/single_field_subscriptions.rs
@@ -61,7 +61,7 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for SingleFieldSubscri
                 selection_set_fields
               .into_iter()
               .filter_map(|(field_name, fields_records)| {
-                  if field_name.starts_with("__") {
+                  if fields_records.iter().any(|field| field.name.starts_with("__")) {
                       return Some((field_name, fields_records));
                   }
 
-- 
2.43.0


From 8e3241b18bfead5765ae418c081dfce3690916d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:22 +0000
Subject: [PATCH 22/62] fix: validate selections, arguments and type conditions
 with names starting with two underscores

---
 .../rules/fields_on_correct_type.rs           |  6 +++++-
 .../validation/rules/known_argument_names.rs  | 10 ++++++++-
 .../src/validation/rules/known_type_names.rs  | 21 ++++++++++++++++---
 .../validation/rules/leaf_field_selections.rs | 14 +++++++++++++
 4 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/lib/graphql-tools/src/validation/rules/fields_on_correct_type.rs b/lib/graphql-tools/src/validation/rules/fields_on_correct_type.rs
index 72e506d..b960f3a 100644
--- a/lib/graphql-tools/src/validation/rules/fields_on_correct_type.rs
+++ b/lib/graphql-tools/src/validation/rules/fields_on_correct_type.rs
@@ -57,7 +57,11 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for FieldsOnCorrectTyp
             let field_name = &field.name;
             let type_name = parent_type.name();
 
-            if field.name.starts_with("__") {
+            // `__typename` is available everywhere, the other meta-fields only on the query root
+            if field.name == "__typename"
+                || (matches!(field.name.as_str(), "__schema" | "__type")
+                    && visitor_context.schema.query_type().name == type_name)
+            {
                 return;
             }
 
diff --git a/lib/graphql-tools/src/validation/rules/known_argument_names.rs b/lib/graphql-tools/src/validation/rules/known_argument_names.rs
index f846530..b28c60f 100644
--- a/lib/graphql-tools/src/validation/rules/known_argument_names.rs
+++ b/lib/graphql-tools/src/validation/rules/known_argument_names.rs
@@ -20,6 +20,9 @@ enum ArgumentParent<'doc> {
     Directive(&'doc str),
 }
 
+/// `__typename` takes no arguments
+static NO_ARGUMENTS: Vec<InputValue> = Vec::new();
+
 impl Default for KnownArgumentNames<'_> {
     fn default() -> Self {
         Self::new()
@@ -65,7 +68,12 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for KnownArgumentNames
         field: &crate::static_graphql::query::Field,
     ) {
         if let Some(parent_type) = visitor_context.current_parent_type() {
-            if let Some(field_def) = parent_type.field_by_name(&field.name) {
+            if field.name == "__typename" {
+                self.current_known_arguments = Some((
+                    ArgumentParent::Field("__typename", parent_type),
+                    &NO_ARGUMENTS,
+                ));
+            } else if let Some(field_def) = parent_type.field_by_name(&field.name) {
                 self.current_known_arguments = Some((
                     ArgumentParent::Field(&field_def.name, parent_type),
                     &field_def.arguments,
diff --git a/lib/graphql-tools/src/validation/rules/known_type_names.rs b/lib/graphql-tools/src/validation/rules/known_type_names.rs
index ce6fe69..ffac252 100644
--- a/lib/graphql-tools/src/validation/rules/known_type_names.rs
+++ b/lib/graphql-tools/src/validation/rules/known_type_names.rs
@@ -23,6 +23,20 @@ impl KnownTypeNames {
     }
 }
 
+fn is_introspection_type(name: &str) -> bool {
+    matches!(
+        name,
+        "__Schema"
+            | "__Type"
+            | "__TypeKind"
+            | "__Field"
+            | "__InputValue"
+            | "__EnumValue"
+            | "__Directive"
+            | "__DirectiveLocation"
+    )
+}
+
 impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for KnownTypeNames {
     fn enter_fragment_definition(
         &mut self,
@@ -36,7 +50,7 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for KnownTypeNames {
             .schema
             .type_by_name(fragment_type_name)
             .is_none()
-            && !fragment_type_name.starts_with("__")
+            && !is_introspection_type(fragment_type_name)
         {
             user_context.report_error(ValidationError {
                 error_code: self.error_code(),
@@ -57,7 +71,7 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for KnownTypeNames {
                 .schema
                 .type_by_name(fragment_type_name)
                 .is_none()
-                && !fragment_type_name.starts_with("__")
+                && !is_introspection_type(fragment_type_name)
             {
                 user_context.report_error(ValidationError {
                     error_code: self.error_code(),
@@ -76,7 +90,8 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for KnownTypeNames {
     ) {
         let base_type = variable_definition.var_type.inner_type();
 
-        if visitor_context.schema.type_by_name(base_type).is_none() && !base_type.starts_with("__")
+        if visitor_context.schema.type_by_name(base_type).is_none()
+            && !is_introspection_type(base_type)
         {
             user_context.report_error(ValidationError {
                 error_code: self.error_code(),
diff --git a/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs b/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
index d23aaab..fccae68 100644
--- a/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
+++ b/lib/graphql-tools/src/validation/rules/leaf_field_selections.rs
@@ -30,6 +30,20 @@ impl<'doc> OperationVisitor<'doc, ValidationErrorContext> for LeafFieldSelection
         user_context: &mut ValidationErrorContext,
         field: &crate::static_graphql::query::Field,
     ) {
+        if field.name == "__typename" {
+            if !field.selection_set.items.is_empty() {
+                user_context.report_error(ValidationError {
+                    error_code: self.error_code(),
+                    locations: vec![field.position],
+                    message:
+                        "Field \"__typename\" must not have a selection since type \"String!\" has no subfields."
+                            .to_string(),
+                });
+            }
+
+            return;
+        }
+
         if let (Some(field_type), Some(field_type_literal)) = (
             (visitor_context.current_type()),
             (visitor_context.current_type_literal()),
-- 
2.43.0


From 38426be716ccede9cd21d86b30264e8fc12fcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 23/62] fix: coerce input object variables, limit Int variables
 to 32 bits, accept large Float variables

---
 .../src/executor/introspection/schema.rs      | 26 ++++++++++++++++-
 bin/router/src/executor/variables/mod.rs      | 29 +++++++++++++++----
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/executor/introspection/schema.rs b/bin/router/src/executor/introspection/schema.rs
index 7cf5da4..072cf04 100644
--- a/bin/router/src/executor/introspection/schema.rs
+++ b/bin/router/src/executor/introspection/schema.rs
@@ -1,7 +1,7 @@
 use ahash::{HashMap, HashSet};
 
 use crate::query_planner::{
-    consumer_schema::ConsumerSchema, state::supergraph_state::OperationKind,
+    consumer_schema::ConsumerSchema, state::supergraph_state::{OperationKind, TypeNode},
 };
 use graphql_tools::parser::{
     query::Type,
@@ -64,11 +64,18 @@ impl FieldNullability {
     }
 }
 
+#[derive(Debug)]
+pub struct InputFieldInfo {
+    pub input_type: TypeNode,
+    pub has_default: bool,
+}
+
 #[derive(Debug, Default)]
 pub struct SchemaMetadata {
     pub possible_types: PossibleTypes,
     pub enum_values: HashMap<String, HashSet<String>>,
     pub type_fields: HashMap<String, HashMap<String, FieldTypeInfo>>,
+    pub input_object_fields: HashMap<String, HashMap<String, InputFieldInfo>>,
     pub object_types: HashSet<String>,
     pub scalar_types: HashSet<String>,
     pub union_types: HashSet<String>,
@@ -160,6 +167,8 @@ impl SchemaWithMetadata for ConsumerSchema {
         let mut first_possible_types: HashMap<String, Vec<String>> = HashMap::default();
         let mut type_fields: HashMap<String, HashMap<String, FieldTypeInfo>> = HashMap::default();
         let mut enum_values: HashMap<String, HashSet<String>> = HashMap::default();
+        let mut input_object_fields: HashMap<String, HashMap<String, InputFieldInfo>> =
+            HashMap::default();
         let mut scalar_types: HashSet<String> = HashSet::from_iter(vec![
             "Boolean".to_string(),
             "Float".to_string(),
@@ -182,6 +191,20 @@ impl SchemaWithMetadata for ConsumerSchema {
                     }
                     enum_values.insert(name, values);
                 }
+                Definition::TypeDefinition(TypeDefinition::InputObject(input_type)) => {
+                    let fields = input_object_fields
+                        .entry(input_type.name.to_string())
+                        .or_default();
+                    for field in &input_type.fields {
+                        fields.insert(
+                            field.name.to_string(),
+                            InputFieldInfo {
+                                input_type: (&field.value_type).into(),
+                                has_default: field.default_value.is_some(),
+                            },
+                        );
+                    }
+                }
                 Definition::TypeDefinition(TypeDefinition::Object(object_type)) => {
                     let name = object_type.name.to_string();
                     object_types.insert(name.clone());
@@ -268,6 +291,7 @@ impl SchemaWithMetadata for ConsumerSchema {
             },
             enum_values,
             type_fields,
+            input_object_fields,
             object_types,
             scalar_types,
             union_types,
diff --git a/bin/router/src/executor/variables/mod.rs b/bin/router/src/executor/variables/mod.rs
index 5826aba..1c63de1 100644
--- a/bin/router/src/executor/variables/mod.rs
+++ b/bin/router/src/executor/variables/mod.rs
@@ -25,6 +25,12 @@ pub enum VariableCoercionError {
         type_name: String,
     },
 
+    #[error("Field \"{field_name}\" is not defined by type \"{type_name}\".")]
+    UnknownField {
+        field_name: String,
+        type_name: String,
+    },
+
     #[error("Expected value of type \"{type_name}\" to be an object, found: {value}.")]
     ExpectedObject { type_name: String, value: String },
 
@@ -128,22 +134,30 @@ fn validate_runtime_value(
                         value: format!("{:?}", value),
                     });
                 }
-            } else if let Some(fields) = schema_metadata.type_fields.get(name) {
+            } else if let Some(fields) = schema_metadata.input_object_fields.get(name) {
                 if let ValueRef::Object(obj) = value {
                     for (field_name, field_info) in fields {
                         if let Some(field_value) = obj.get(field_name) {
                             validate_runtime_value(
                                 field_value.as_ref(),
-                                &TypeNode::Named(field_info.output_type_name.to_string()),
+                                &field_info.input_type,
                                 schema_metadata,
                             )?;
-                        } else {
+                        } else if field_info.input_type.is_non_null() && !field_info.has_default {
                             return Err(VariableCoercionError::MissingField {
                                 field_name: field_name.clone(),
                                 type_name: name.clone(),
                             });
                         }
                     }
+                    for (field_name, _) in obj.iter() {
+                        if !fields.contains_key(field_name) {
+                            return Err(VariableCoercionError::UnknownField {
+                                field_name: field_name.to_string(),
+                                type_name: name.clone(),
+                            });
+                        }
+                    }
                 } else {
                     return Err(VariableCoercionError::ExpectedObject {
                         type_name: name.clone(),
@@ -178,7 +192,12 @@ fn validate_runtime_value(
                         }
                     }
                     "Int" => {
-                        let is_valid = matches!(value, ValueRef::Number(ref num) if num.is_i64());
+                        // https://spec.graphql.org/draft/#sec-Int.Input-Coercion
+                        let is_valid = matches!(
+                            value,
+                            ValueRef::Number(ref num)
+                                if num.as_i64().is_some_and(|n| i32::try_from(n).is_ok())
+                        );
                         if is_valid {
                             Ok(())
                         } else {
@@ -190,7 +209,7 @@ fn validate_runtime_value(
                     "Float" => {
                         let is_valid = matches!(
                             value,
-                            ValueRef::Number(ref num) if num.is_f64() || num.is_i64()
+                            ValueRef::Number(ref num) if num.is_f64() || num.is_i64() || num.is_u64()
                         );
                         if is_valid {
                             Ok(())
-- 
2.43.0


From c69dcec637afcafa3c9f5a22411245a421a178b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 24/62] fix: operations which differ only in the kind or
 nesting of values, or in where a fragment ends, shared a cached plan

---
 bin/router/src/query_planner/ast/hash.rs  | 50 +++++++++++++++++++++--
 bin/router/src/query_planner/ast/value.rs |  2 +
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/query_planner/ast/hash.rs b/bin/router/src/query_planner/ast/hash.rs
index 7405c5d..000d154 100644
--- a/bin/router/src/query_planner/ast/hash.rs
+++ b/bin/router/src/query_planner/ast/hash.rs
@@ -220,6 +220,10 @@ impl ASTHash for &FieldSelection {
 
 impl ASTHash for &InlineFragmentSelection {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
+        // The number of selections tells where the fragment ends:
+        // `{ ... on A { a } b }` is not `{ ... on A { a b } }`
+        "...".hash(hasher);
+        self.selections.items.len().hash(hasher);
         self.type_condition.hash(hasher);
         self.selections.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
         if let Some(var_name) = self.include_if.as_ref() {
@@ -259,6 +263,7 @@ impl ASTHash for ArgumentsMap {
         for (key, value) in self.into_iter() {
             let mut key_val_hasher = build_hasher.build_hasher();
             key.hash(&mut key_val_hasher);
+            value.hash_kind(&mut key_val_hasher, ValuePosition::Argument);
             value.ast_hash::<_, ORDER_INDEPENDENT>(&mut key_val_hasher);
             combined_hash ^= key_val_hasher.finish();
         }
@@ -288,6 +293,9 @@ impl ASTHash for VariableDefinition {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
         self.name.hash(hasher);
         self.variable_type.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
+        if let Some(default_value) = &self.default_value {
+            default_value.hash_kind(hasher, ValuePosition::VariableDefault);
+        }
         self.default_value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
     }
 }
@@ -312,19 +320,20 @@ impl ASTHash for Value {
     fn ast_hash<H: Hasher, const ORDER_INDEPENDENT: bool>(&self, hasher: &mut H) {
         match self {
             Value::List(values) => {
+                values.len().hash(hasher);
                 for value in values {
+                    value.hash_kind(hasher, ValuePosition::Nested);
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
             Value::Object(map) => {
                 for (name, value) in map {
                     name.hash(hasher);
+                    value.hash_kind(hasher, ValuePosition::Nested);
                     value.ast_hash::<_, ORDER_INDEPENDENT>(hasher);
                 }
             }
-            Value::Null => {
-                "null".hash(hasher);
-            }
+            Value::Null => {}
             Value::Int(value) => value.hash(hasher),
             Value::Float(value) => {
                 if value.is_nan() {
@@ -341,6 +350,41 @@ impl ASTHash for Value {
     }
 }
 
+/// Where a value is used, see [`Value::hash_kind`].
+#[derive(Clone, Copy, PartialEq)]
+enum ValuePosition {
+    Argument,
+    Nested,
+    VariableDefault,
+}
+
+impl Value {
+    /// Hashes the kind of the value (and the number of fields of an object),
+    /// so that values which differ only in their kind or in their nesting have different hashes:
+    /// `1`, `true` and `[1]`, `null` and `"null"`, `"A"`, `A` and `$A`, `{a: {}, b: 1}` and `{a: {b: 1}}`.
+    ///
+    /// The most common kinds of values in a position carry no marker.
+    fn hash_kind<H: Hasher>(&self, hasher: &mut H, position: ValuePosition) {
+        match (self, position) {
+            (Value::Int(_) | Value::Enum(_) | Value::Object(_), ValuePosition::Argument) => {}
+            (Value::String(_), ValuePosition::Nested) => {}
+            (Value::Boolean(_), ValuePosition::VariableDefault) => {}
+            (Value::Object(map), _) => {
+                "kind:object".hash(hasher);
+                map.len().hash(hasher);
+            }
+            (Value::List(_), _) => "kind:list".hash(hasher),
+            (Value::Null, _) => "kind:null".hash(hasher),
+            (Value::Int(_), _) => "kind:int".hash(hasher),
+            (Value::Float(_), _) => "kind:float".hash(hasher),
+            (Value::Enum(_), _) => "kind:enum".hash(hasher),
+            (Value::Boolean(_), _) => "kind:boolean".hash(hasher),
+            (Value::String(_), _) => "kind:string".hash(hasher),
+            (Value::Variable(_), _) => "kind:variable".hash(hasher),
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/bin/router/src/query_planner/ast/value.rs b/bin/router/src/query_planner/ast/value.rs
index 00ca92c..4ee46f9 100644
--- a/bin/router/src/query_planner/ast/value.rs
+++ b/bin/router/src/query_planner/ast/value.rs
@@ -52,6 +52,8 @@ impl Eq for Value {}
 
 impl Hash for Value {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // `$a`, `a` and `"a"` are different values
+        mem::discriminant(self).hash(state);
         match self {
             Value::Variable(name) => name.hash(state),
             Value::Int(i) => i.hash(state),
-- 
2.43.0


From 773a158c090b5739c4d77ed3590bbae301b1a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 25/62] fix: read and print string, block string and number
 literals as the specification says

---
 lib/graphql-tools/src/parser/common.rs       | 99 +++++++++++++++-----
 lib/graphql-tools/src/parser/format.rs       | 41 +++++---
 lib/graphql-tools/src/parser/query/format.rs | 14 +--
 lib/graphql-tools/src/parser/query/minify.rs | 11 ++-
 lib/graphql-tools/src/parser/tokenizer.rs    |  8 +-
 5 files changed, 121 insertions(+), 52 deletions(-)

diff --git a/lib/graphql-tools/src/parser/common.rs b/lib/graphql-tools/src/parser/common.rs
index 33c9087..3d75bcc 100644
--- a/lib/graphql-tools/src/parser/common.rs
+++ b/lib/graphql-tools/src/parser/common.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::fmt;
 
 use combine::easy::{Error, Info};
@@ -165,7 +166,13 @@ where
     S: Text<'a>,
 {
     kind(T::FloatValue)
-        .and_then(|tok| tok.value.parse())
+        .and_then(|tok| match tok.value.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(Error::Unexpected(Info::Owned(format!(
+                "float out of range {:?}",
+                tok.value
+            )))),
+        })
         .map(Value::Float)
         .parse_stream(input)
         .into_result()
@@ -173,13 +180,21 @@ where
 
 fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>> {
     debug_assert!(src.starts_with("\"\"\"") && src.ends_with("\"\"\""));
-    let lines = src[3..src.len() - 3].lines();
+    let source = &src[3..src.len() - 3];
+    // Line terminators are "\n", "\r\n" and "\r".
+    let source = if source.contains('\r') {
+        Cow::Owned(source.replace("\r\n", "\n").replace('\r', "\n"))
+    } else {
+        Cow::Borrowed(source)
+    };
+    let lines = source.split('\n');
 
     let mut common_indent = usize::MAX;
     let mut first_non_empty_line: Option<usize> = None;
     let mut last_non_empty_line = 0;
     for (idx, line) in lines.clone().enumerate() {
-        let indent = line.len() - line.trim_start().len();
+        // Only spaces and tabs are white space in GraphQL.
+        let indent = line.len() - line.trim_start_matches([' ', '\t']).len();
         if indent == line.len() {
             continue;
         }
@@ -206,8 +221,9 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
         .take(last_non_empty_line - first_non_empty_line + 1)
         // Remove indent, except the first line.
         .map(|(idx, line)| {
-            if idx != 0 && line.len() >= common_indent {
-                &line[common_indent..]
+            if idx != 0 {
+                // Lines shorter than the common indent are blank.
+                line.get(common_indent..).unwrap_or_default()
             } else {
                 line
             }
@@ -226,6 +242,41 @@ fn unquote_block_string(src: &str) -> Result<String, Error<Token<'_>, Token<'_>>
     Ok(result)
 }
 
+/// Reads the characters of `\uXXXX` or `\u{X...}` after the `u`
+fn unicode_escape<'a>(
+    chars: &mut std::str::Chars<'_>,
+    digits: &mut String,
+) -> Result<u32, Error<Token<'a>, Token<'a>>> {
+    digits.clear();
+    if chars.as_str().starts_with('{') && chars.as_str().contains('}') {
+        chars.next();
+        digits.extend(chars.by_ref().take_while(|c| *c != '}'));
+    } else {
+        digits.extend(chars.by_ref().take(4));
+        if digits.chars().count() < 4 {
+            return Err(Error::Unexpected(Info::Owned(
+                format_args!(
+                    "\\u must have 4 characters after it, only found '{}'",
+                    digits
+                )
+                .to_string(),
+            )));
+        }
+    }
+
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(Error::Unexpected(Info::Owned(
+            format_args!("{} is not a valid unicode code point", digits).to_string(),
+        )));
+    }
+
+    u32::from_str_radix(digits, 16).map_err(|_| {
+        Error::Unexpected(Info::Owned(
+            format_args!("{} is not a valid unicode code point", digits).to_string(),
+        ))
+    })
+}
+
 fn unquote_string<'a>(s: &'a str) -> Result<String, Error<Token<'a>, Token<'a>>> {
     let mut res = String::with_capacity(s.len());
     debug_assert!(s.starts_with('"') && s.ends_with('"'));
@@ -236,32 +287,32 @@ fn unquote_string<'a>(s: &'a str) -> Result<String, Error<Token<'a>, Token<'a>>>
             '\\' => {
                 match chars.next().expect("slash cant be at the end") {
                     c @ '"' | c @ '\\' | c @ '/' => res.push(c),
-                    'b' => res.push('\u{0010}'),
+                    'b' => res.push('\u{0008}'),
                     'f' => res.push('\u{000C}'),
                     'n' => res.push('\n'),
                     'r' => res.push('\r'),
                     't' => res.push('\t'),
                     'u' => {
-                        temp_code_point.clear();
-                        for _ in 0..4 {
-                            match chars.next() {
-                                Some(inner_c) => temp_code_point.push(inner_c),
-                                None => {
-                                    return Err(Error::Unexpected(Info::Owned(
-                                        format_args!(
-                                            "\\u must have 4 characters after it, only found '{}'",
-                                            temp_code_point
-                                        )
-                                        .to_string(),
-                                    )))
-                                }
+                        let unit = unicode_escape(&mut chars, &mut temp_code_point)?;
+                        // A code point beyond the basic plane is written as a surrogate pair.
+                        let code_point = if (0xD800..0xDC00).contains(&unit)
+                            && chars.as_str().starts_with("\\u")
+                        {
+                            chars.next();
+                            chars.next();
+                            let low = unicode_escape(&mut chars, &mut temp_code_point)?;
+                            if (0xDC00..0xE000).contains(&low) {
+                                0x10000 + ((unit - 0xD800) << 10) + (low - 0xDC00)
+                            } else {
+                                unit
                             }
-                        }
+                        } else {
+                            unit
+                        };
 
-                        // convert our hex string into a u32, then convert that into a char
-                        match u32::from_str_radix(&temp_code_point, 16).map(std::char::from_u32) {
-                            Ok(Some(unicode_char)) => res.push(unicode_char),
-                            _ => {
+                        match std::char::from_u32(code_point) {
+                            Some(unicode_char) => res.push(unicode_char),
+                            None => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     format_args!(
                                         "{} is not a valid unicode code point",
diff --git a/lib/graphql-tools/src/parser/format.rs b/lib/graphql-tools/src/parser/format.rs
index 7e36e51..6a94d8a 100644
--- a/lib/graphql-tools/src/parser/format.rs
+++ b/lib/graphql-tools/src/parser/format.rs
@@ -124,16 +124,7 @@ impl<'a> Formatter<'a> {
     }
 
     pub fn write_quoted(&mut self, s: &str) {
-        let mut has_newline = false;
-        let mut has_nonprintable = false;
-        for c in s.chars() {
-            match c {
-                '\n' => has_newline = true,
-                '\r' | '\t' | '\u{0020}'..='\u{FFFF}' => {}
-                _ => has_nonprintable = true,
-            }
-        }
-        if !has_newline || has_nonprintable {
+        if !is_block_string_safe(s) {
             use std::fmt::Write;
             self.buf.push('"');
             for c in s.chars() {
@@ -143,8 +134,8 @@ impl<'a> Formatter<'a> {
                     '\t' => self.write(r"\t"),
                     '"' => self.write("\\\""),
                     '\\' => self.write(r"\\"),
-                    '\u{0020}'..='\u{FFFF}' => self.buf.push(c),
-                    _ => write!(&mut self.buf, "\\u{:04}", c as u32).unwrap(),
+                    '\u{0020}'.. => self.buf.push(c),
+                    _ => write!(&mut self.buf, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buf.push('"');
@@ -153,7 +144,7 @@ impl<'a> Formatter<'a> {
             self.endline();
             self.indent += self.style.indent;
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     self.write(&line.replace(r#"""""#, r#"\""""#));
                 }
@@ -210,3 +201,27 @@ macro_rules! impl_display {
         )+
     };
 }
+
+/// Whether a string has several lines and reads the same when it is written as an indented block string:
+/// nothing in it needs an escape, and reading removes no indentation and no blank lines of its own.
+pub(crate) fn is_block_string_safe(s: &str) -> bool {
+    if !s.contains('\n') || s.chars().any(|c| c < ' ' && c != '\n' && c != '\t') {
+        return false;
+    }
+
+    let is_blank = |line: &str| line.trim_matches([' ', '\t']).is_empty();
+    let mut has_unindented_line = false;
+    for line in s.split('\n') {
+        if is_blank(line) {
+            if !line.is_empty() {
+                return false;
+            }
+        } else {
+            has_unindented_line |= !line.starts_with([' ', '\t']);
+        }
+    }
+
+    has_unindented_line
+        && !s.split('\n').next().is_some_and(is_blank)
+        && !s.split('\n').next_back().is_some_and(is_blank)
+}
diff --git a/lib/graphql-tools/src/parser/query/format.rs b/lib/graphql-tools/src/parser/query/format.rs
index 569d7dc..8eb52ff 100644
--- a/lib/graphql-tools/src/parser/query/format.rs
+++ b/lib/graphql-tools/src/parser/query/format.rs
@@ -193,13 +193,15 @@ impl<'a, T: Text<'a>> Displayable for Subscription<'a, T> {
         if let Some(ref name) = self.name {
             f.write(" ");
             f.write(name.as_ref());
-            if !self.variable_definitions.is_empty() {
-                f.write("(");
-                for var in &self.variable_definitions {
-                    var.display(f);
-                }
-                f.write(")");
+        }
+        if !self.variable_definitions.is_empty() {
+            f.write("(");
+            self.variable_definitions[0].display(f);
+            for var in &self.variable_definitions[1..] {
+                f.write(", ");
+                var.display(f);
             }
+            f.write(")");
         }
         format_directives(&self.directives, f);
         f.write(" ");
diff --git a/lib/graphql-tools/src/parser/query/minify.rs b/lib/graphql-tools/src/parser/query/minify.rs
index 8f68303..8319c5e 100644
--- a/lib/graphql-tools/src/parser/query/minify.rs
+++ b/lib/graphql-tools/src/parser/query/minify.rs
@@ -1,4 +1,5 @@
 use crate::parser::{
+    format::is_block_string_safe,
     query::{
         Definition, Directive, Document, FragmentDefinition, OperationDefinition, Selection,
         SelectionSet, Text, Type, TypeCondition, Value, VariableDefinition,
@@ -343,7 +344,7 @@ impl Minifier {
             return;
         }
 
-        if !has_newline {
+        if !is_block_string_safe(s) {
             use std::fmt::Write;
             // Reserve extra space for escape sequences. Most strings need 2 bytes for quotes,
             // and ~16 bytes accounts for typical escape sequences (e.g., \", \\, \u00XX).
@@ -358,9 +359,9 @@ impl Minifier {
                     '"' => self.buffer.push_str("\\\""),
                     '\\' => self.buffer.push_str(r"\\"),
                     // Regular text characters. These are safe to write directly without escaping.
-                    '\u{0020}'..='\u{FFFF}' => self.buffer.push(c),
+                    '\u{0020}'.. => self.buffer.push(c),
                     // Characters outside the printable range are escaped as \uXXXX.
-                    _ => write!(&mut self.buffer, "\\u{:04}", c as u32).unwrap(),
+                    _ => write!(&mut self.buffer, "\\u{:04x}", c as u32).unwrap(),
                 }
             }
             self.buffer.push('"');
@@ -374,12 +375,12 @@ impl Minifier {
             self.block_indent += 2;
 
             for line in s.lines() {
-                if !line.trim().is_empty() {
+                if !line.is_empty() {
                     self.indent();
                     let mut last_pos = 0;
                     for (pos, _) in line.match_indices(r#"""""#) {
                         self.buffer.push_str(&line[last_pos..pos]);
-                        self.buffer.push_str(r#"\"""#);
+                        self.buffer.push_str(r#"\""""#);
                         last_pos = pos + 3;
                     }
                     self.buffer.push_str(&line[last_pos..]);
diff --git a/lib/graphql-tools/src/parser/tokenizer.rs b/lib/graphql-tools/src/parser/tokenizer.rs
index 2fab6e6..b1af53a 100644
--- a/lib/graphql-tools/src/parser/tokenizer.rs
+++ b/lib/graphql-tools/src/parser/tokenizer.rs
@@ -111,7 +111,7 @@ fn check_exp(value: &str) -> bool {
         return false;
     }
     let first = value.chars().next().unwrap();
-    if first != '-' && first != '+' && (first <= '0' || first >= '9') {
+    if first != '-' && first != '+' && (first <= '0' || first > '9') {
         return false;
     }
 
@@ -248,8 +248,8 @@ impl<'a> TokenStream<'a> {
                     };
                     match cur_char {
                         // just scan for now, will validate later on
-                        ' ' | '\n' | '\r' | '\t' | ',' | '#' | '!' | '$' | ':' | '=' | '@'
-                        | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
+                        ' ' | '\n' | '\r' | '\t' | '\u{feff}' | ',' | '#' | '!' | '$' | ':'
+                        | '=' | '@' | '|' | '&' | '(' | ')' | '[' | ']' | '{' | '}' => break idx,
                         '.' => real = Some(idx),
                         'e' | 'E' => exponent = Some(idx),
                         _ => {}
@@ -302,7 +302,7 @@ impl<'a> TokenStream<'a> {
                                 self.off += idx + 1;
                                 return Ok((StringValue, idx + 1));
                             }
-                            '\n' => {
+                            '\n' | '\r' => {
                                 return Err(Error::Unexpected(Info::Owned(
                                     "unterminated string value".to_string(),
                                 )));
-- 
2.43.0


From 419b5d95851b9a1132c98d2f24321e6720ec9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 26/62] fix: deduplication ignored header values which are not
 visible ASCII and all but one value of a repeated header

---
 bin/router/src/executor/executors/dedupe.rs | 16 ++++++++--------
 bin/router/src/pipeline/mod.rs              |  8 +++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/bin/router/src/executor/executors/dedupe.rs b/bin/router/src/executor/executors/dedupe.rs
index 84841e4..470338c 100644
--- a/bin/router/src/executor/executors/dedupe.rs
+++ b/bin/router/src/executor/executors/dedupe.rs
@@ -1,5 +1,4 @@
 use ahash::RandomState;
-use std::collections::BTreeMap;
 use std::hash::{Hash, Hasher};
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::OnceLock;
@@ -9,13 +8,14 @@ use crate::executor::executors::http::SendRequestOpts;
 
 impl Hash for SendRequestOpts<'_> {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        // BTreeMap to ensure case-insensitivity and consistent order for hashing
-        let mut headers = BTreeMap::new();
-        for (header_name, header_value) in self.headers.iter() {
-            if let Ok(value_str) = header_value.to_str() {
-                headers.insert(header_name.as_str(), value_str);
-            }
-        }
+        // Sorted by name for a consistent order. Values are opaque bytes and a name may repeat,
+        // the sort is stable as the order of the values of one name matters.
+        let mut headers: Vec<(&str, &[u8])> = self
+            .headers
+            .iter()
+            .map(|(name, value)| (name.as_str(), value.as_bytes()))
+            .collect();
+        headers.sort_by_key(|(name, _)| *name);
 
         self.method.hash(state);
         self.endpoint.hash(state);
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index 7e3d07d..a364a07 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -928,12 +928,14 @@ pub fn connection_fingerprint(
 ) -> ConnectionFingerprint {
     let mut hasher = Xxh3::new();
 
-    let mut headers: Vec<(&str, &str)> = request_headers
+    // Values are opaque bytes and a name may repeat,
+    // the sort is stable as the order of the values of one name matters.
+    let mut headers: Vec<(&str, &[u8])> = request_headers
         .iter()
         .filter(|(name, _)| header_policy.should_include(name.as_str()))
-        .filter_map(|(name, value)| value.to_str().ok().map(|value| (name.as_str(), value)))
+        .map(|(name, value)| (name.as_str(), value.as_bytes()))
         .collect();
-    headers.sort_unstable();
+    headers.sort_by_key(|(name, _)| *name);
 
     method.hash(&mut hasher);
     path.hash(&mut hasher);
-- 
2.43.0


From 88eb74a2c7bbe908561292005097f612e4a6d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 27/62] fix: a mutation started before the entity fetches of
 the previous mutation had ended

---
 .../optimize/turn_mutations_into_sequence.rs  | 53 ++++++++++++++++---
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/bin/router/src/query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs b/bin/router/src/query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs
index c61f6eb..65dfd0c 100644
--- a/bin/router/src/query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs
+++ b/bin/router/src/query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use petgraph::{
     graph::{EdgeIndex, NodeIndex},
     visit::{EdgeRef, NodeRef},
@@ -35,17 +37,39 @@ impl FetchGraph<MultiTypeFetchStep> {
 
         node_mutation_field_pos_pairs.sort_by_key(|&(_, pos)| pos);
 
+        // A mutation is completed only when the entity fetches that belong to it are,
+        // so the next mutation has to wait for those as well.
+        // Steps shared with a later mutation cannot be waited for, as they depend on that mutation.
+        let descendants: Vec<HashSet<NodeIndex>> = node_mutation_field_pos_pairs
+            .iter()
+            .map(|&(node_index, _pos)| self.descendants_of(node_index))
+            .collect();
         let mut new_edges_pairs: Vec<(NodeIndex, NodeIndex)> = Vec::new();
-        let mut iter = node_mutation_field_pos_pairs.iter();
-        let mut current = iter.next();
 
-        for next_sequence_child in iter {
-            if let Some((current_node_index, _pos)) = current {
-                let next_node_index = next_sequence_child.0;
-                new_edges_pairs.push((current_node_index.id(), next_node_index));
+        for (position, pair) in node_mutation_field_pos_pairs.windows(2).enumerate() {
+            let (current_node_index, next_node_index) = (pair[0].0, pair[1].0);
+            let is_own_step = |index: &NodeIndex| {
+                !descendants[position + 1..]
+                    .iter()
+                    .any(|later| later.contains(index))
+            };
+
+            // The mutation step itself, when nothing else belongs to it.
+            let last_steps: Vec<NodeIndex> = std::iter::once(current_node_index)
+                .chain(descendants[position].iter().copied().filter(is_own_step))
+                .filter(|index| {
+                    !self
+                        .children_of(*index)
+                        .any(|edge| is_own_step(&edge.target().id()))
+                })
+                .collect();
+
+            for last_step in last_steps {
+                new_edges_pairs.push((last_step, next_node_index));
             }
-            current = Some(next_sequence_child);
         }
+        // Hash sets are unordered, but the plan has to be deterministic.
+        new_edges_pairs.sort();
 
         for edge_id in edge_ids_to_remove {
             self.remove_edge(edge_id);
@@ -63,4 +87,19 @@ impl FetchGraph<MultiTypeFetchStep> {
 
         Ok(())
     }
+
+    /// All the steps that depend, directly or not, on the given step.
+    fn descendants_of(&self, index: NodeIndex) -> HashSet<NodeIndex> {
+        let mut found: HashSet<NodeIndex> = HashSet::new();
+        let mut stack = vec![index];
+        while let Some(current) = stack.pop() {
+            for edge in self.children_of(current) {
+                let child_index = edge.target().id();
+                if found.insert(child_index) {
+                    stack.push(child_index);
+                }
+            }
+        }
+        found
+    }
 }
-- 
2.43.0


From 6c85903a64fbc126a354c0d5f06c90fa5b331294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 28/62] fix: mutation fields repeated under different
 conditions ran twice, fields of a conditional fragment out of order

---
 .../query_planner/ast/normalization/mod.rs    | 50 +++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/bin/router/src/query_planner/ast/normalization/mod.rs b/bin/router/src/query_planner/ast/normalization/mod.rs
index 126b7c9..fe4adf6 100644
--- a/bin/router/src/query_planner/ast/normalization/mod.rs
+++ b/bin/router/src/query_planner/ast/normalization/mod.rs
@@ -97,6 +97,9 @@ pub fn create_normalized_document<'a>(
     operation_name: Option<String>,
 ) -> NormalizedDocument {
     let mut operation: ast::operation::OperationDefinition = operation_ast.into();
+    if operation.operation_kind == Some(OperationKind::Mutation) {
+        group_mutation_root_fields(&mut operation.selection_set);
+    }
     inject_skipped_typename_for_empty_composites(&mut operation, supergraph);
 
     NormalizedDocument {
@@ -105,6 +108,53 @@ pub fn create_normalized_document<'a>(
     }
 }
 
+/// Mutations are executed in the order of their root selections,
+/// and selections of the same response key are a single execution of that field.
+/// Gives each root field an item of its own and puts the items of a response key next to each other.
+fn group_mutation_root_fields(selection_set: &mut ast::selection_set::SelectionSet) {
+    let mut groups: Vec<(String, Vec<ast::selection_item::SelectionItem>)> = Vec::new();
+
+    for item in std::mem::take(&mut selection_set.items) {
+        for (response_key, item) in split_root_item(item) {
+            match groups.iter_mut().find(|(key, _)| *key == response_key) {
+                Some((_, items)) => items.push(item),
+                None => groups.push((response_key, vec![item])),
+            }
+        }
+    }
+
+    selection_set
+        .items
+        .extend(groups.into_iter().flat_map(|(_, items)| items));
+}
+
+/// Splits a (possibly conditional) fragment into one fragment per field.
+fn split_root_item(
+    item: ast::selection_item::SelectionItem,
+) -> Vec<(String, ast::selection_item::SelectionItem)> {
+    use ast::selection_item::SelectionItem;
+
+    match item {
+        SelectionItem::Field(field) => vec![(
+            field.selection_identifier().to_string(),
+            SelectionItem::Field(field),
+        )],
+        SelectionItem::InlineFragment(mut fragment) => {
+            std::mem::take(&mut fragment.selections.items)
+                .into_iter()
+                .flat_map(split_root_item)
+                .map(|(response_key, item)| {
+                    let mut fragment = fragment.clone();
+                    fragment.selections.items.push(item);
+                    (response_key, SelectionItem::InlineFragment(fragment))
+                })
+                .collect()
+        }
+        // Fragment spreads are removed earlier in normalization.
+        SelectionItem::FragmentSpread(_) => vec![],
+    }
+}
+
 fn inject_skipped_typename_for_empty_composites(
     operation: &mut ast::operation::OperationDefinition,
     supergraph: &SupergraphState,
-- 
2.43.0


From 1f547e11bff2ac1c8af588148781cf349772cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 29/62] fix: find the signing key of a token among the keys of
 all providers

---
 bin/router/src/jwt/mod.rs | 43 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index c625691..2c37896 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -124,34 +124,42 @@ impl JwtAuthRuntime {
         Err(LookupError::LookupFailed)
     }
 
+    /// Finds the keys that may have signed the token, across all providers.
     pub(crate) fn find_matching_jwks<'a>(
         &'a self,
         jwt_header: &Header,
         jwks: &'a Vec<Arc<JwkSet>>,
-    ) -> Result<&'a JwkSet, JwtError> {
+    ) -> Result<Vec<&'a Jwk>, JwtError> {
         // If `kid` is vailable on the header, we can try to match it to the `kid` on the available JWKs.
+        // Key ids are only unique within a provider, so more than one provider may know the `kid`.
         if let Some(jwt_kid) = &jwt_header.kid {
-            for jwk in jwks {
-                for key in &jwk.keys {
-                    if key.common.key_id.as_ref().is_some_and(|v| v == jwt_kid) {
-                        return Ok(jwk);
-                    }
-                }
+            let matching: Vec<&Jwk> = jwks
+                .iter()
+                .filter(|set| set.find(jwt_kid).is_some())
+                .flat_map(|set| set.keys.iter())
+                .collect();
+            if !matching.is_empty() {
+                return Ok(matching);
             }
         }
 
         // If we don't have `kid` on the token, we should try to match the `alg` field.
-        for jwk in jwks {
-            for key in &jwk.keys {
-                if let Some(key_alg) = key.common.key_algorithm {
-                    let key_alg_cmp = Algorithm::from_str(&key_alg.to_string())
-                        .map_err(JwtError::JwkAlgorithmNotSupported)?;
-                    if key_alg_cmp == jwt_header.alg {
-                        return Ok(jwk);
-                    }
+        let mut matching: Vec<&Jwk> = Vec::new();
+        for set in jwks {
+            for key in &set.keys {
+                // Sets may also hold keys of algorithms that are not for signatures.
+                let is_same_alg = key.common.key_algorithm.is_some_and(|key_alg| {
+                    Algorithm::from_str(&key_alg.to_string()).is_ok_and(|alg| alg == jwt_header.alg)
+                });
+                if is_same_alg {
+                    matching.extend(set.keys.iter());
+                    break;
                 }
             }
         }
+        if !matching.is_empty() {
+            return Ok(matching);
+        }
 
         Err(JwtError::FailedToLocateProvider)
     }
@@ -167,7 +175,7 @@ impl JwtAuthRuntime {
                 let header = decode_header(&token).map_err(JwtError::InvalidJwtHeader)?;
                 let jwk = self.find_matching_jwks(&header, jwks)?;
 
-                self.decode_and_validate_token(&header, &token, &jwk.keys)
+                self.decode_and_validate_token(&header, &token, &jwk)
                     .map(|token_data| (token_data, maybe_prefix, token))
             }
             Err(e) => {
@@ -182,7 +190,7 @@ impl JwtAuthRuntime {
         &self,
         header: &Header,
         token: &str,
-        jwks: &[Jwk],
+        jwks: &[&Jwk],
     ) -> Result<JwtTokenPayload, JwtError> {
         let decode_attempts = jwks
             .iter()
@@ -225,6 +233,7 @@ impl JwtAuthRuntime {
 
         let mut validation = Validation::new(alg);
 
+
         // This only validates the existence of the claim, it does not validate the values, we'll do it after decoding.
         if let Some(iss) = &self.config.issuers {
             validation.set_issuer(iss);
-- 
2.43.0


From d1062bce9814299463a759fcbc3f65a60853a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 30/62] fix: refuse tokens which are not valid yet (nbf)

---
 bin/router/src/jwt/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/router/src/jwt/mod.rs b/bin/router/src/jwt/mod.rs
index 2c37896..11a6abf 100644
--- a/bin/router/src/jwt/mod.rs
+++ b/bin/router/src/jwt/mod.rs
@@ -233,6 +233,8 @@ impl JwtAuthRuntime {
 
         let mut validation = Validation::new(alg);
 
+        // `jsonwebtoken` does not check `nbf` unless asked to.
+        validation.validate_nbf = true;
 
         // This only validates the existence of the claim, it does not validate the values, we'll do it after decoding.
         if let Some(iss) = &self.config.issuers {
-- 
2.43.0


From 5d5953953fe2cd258b6060e6e54a23694b59a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 31/62] fix: introspection of deprecated arguments, interfaces
 of interfaces, default deprecation reasons and conditional fragments of
 __schema

---
 .../src/executor/introspection/resolve.rs     | 123 +++++++++---------
 1 file changed, 59 insertions(+), 64 deletions(-)

diff --git a/bin/router/src/executor/introspection/resolve.rs b/bin/router/src/executor/introspection/resolve.rs
index 011eb3b..f361660 100644
--- a/bin/router/src/executor/introspection/resolve.rs
+++ b/bin/router/src/executor/introspection/resolve.rs
@@ -48,28 +48,60 @@ fn resolve_str_variable<'a>(
         .and_then(|value| value.as_str())
 }
 
+// The default value of `@deprecated(reason:)`
+// https://spec.graphql.org/September2025/#sec--deprecated
+const DEFAULT_DEPRECATION_REASON: &str = "No longer supported";
+
 fn get_deprecation_reason(directives: &[Directive]) -> Option<&str> {
-    directives
+    let directive = directives.iter().find(|d| d.name == "deprecated")?;
+    let reason = directive
+        .arguments
         .iter()
-        .find(|d| d.name == "deprecated")
-        .and_then(|d| {
-            d.arguments
-                .iter()
-                .find(|(name, _)| name.as_str() == "reason")
-        })
-        .and_then(|(_, value)| {
-            if let QueryValue::String(s) = value {
-                Some(s.as_str())
-            } else {
-                None
-            }
-        })
+        .find(|(name, _)| name.as_str() == "reason");
+
+    match reason {
+        Some((_, QueryValue::String(s))) => Some(s.as_str()),
+        Some(_) => None,
+        None => Some(DEFAULT_DEPRECATION_REASON),
+    }
 }
 
 fn is_deprecated(directives: &[Directive]) -> bool {
     directives.iter().any(|d| d.name == "deprecated")
 }
 
+/// The value of the field's `includeDeprecated` argument, `false` by default.
+fn include_deprecated(field: &FieldSelection, ctx: &IntrospectionContext) -> bool {
+    field
+        .arguments
+        .as_ref()
+        .and_then(|a| a.get_argument("includeDeprecated"))
+        .and_then(|v| match v {
+            AstValue::Boolean(b) => Some(*b),
+            AstValue::Variable(var_name) => {
+                resolve_boolean_variable(var_name.as_str(), &ctx.variables)
+            }
+            _ => None,
+        })
+        .unwrap_or(false)
+}
+
+fn resolve_input_values<'exec>(
+    input_values: &'exec [InputValue],
+    field: &'exec FieldSelection,
+    ctx: &'exec IntrospectionContext,
+) -> Value<'exec> {
+    let include_deprecated = include_deprecated(field, ctx);
+
+    Value::Array(
+        input_values
+            .iter()
+            .filter(|iv| include_deprecated || !is_deprecated(&iv.directives))
+            .map(|iv| resolve_input_value(iv, &field.selections, ctx))
+            .collect(),
+    )
+}
+
 fn is_deprecated_enum(enum_val: &EnumValue) -> bool {
     is_deprecated(&enum_val.directives)
 }
@@ -175,14 +207,7 @@ fn resolve_field_selections<'exec>(
                     .description
                     .as_ref()
                     .map_or(Value::Null, |s| Value::String(s.into())),
-                "args" => {
-                    let args: Vec<_> = f
-                        .arguments
-                        .iter()
-                        .map(|arg| resolve_input_value(arg, &field.selections, ctx))
-                        .collect();
-                    Value::Array(args)
-                }
+                "args" => resolve_input_values(&f.arguments, field, ctx),
                 "type" => resolve_type(&f.field_type, &field.selections, ctx),
                 "isDeprecated" => Value::Bool(is_deprecated(&f.directives)),
                 "deprecationReason" => get_deprecation_reason(&f.directives)
@@ -304,18 +329,7 @@ fn resolve_type_definition_selections<'exec>(
                         _ => None,
                     };
                     if let Some(fields) = fields {
-                        let include_deprecated = field
-                            .arguments
-                            .as_ref()
-                            .and_then(|a| a.get_argument("includeDeprecated"))
-                            .and_then(|v| match v {
-                                AstValue::Boolean(b) => Some(*b),
-                                AstValue::Variable(var_name) => {
-                                    resolve_boolean_variable(var_name.as_str(), &ctx.variables)
-                                }
-                                _ => None,
-                            })
-                            .unwrap_or(false);
+                        let include_deprecated = include_deprecated(field, ctx);
 
                         let fields_values: Vec<Value<'exec>> = fields
                             .iter()
@@ -331,9 +345,13 @@ fn resolve_type_definition_selections<'exec>(
                     }
                 }
                 "interfaces" => {
-                    if let TypeDefinition::Object(obj) = type_def {
-                        let interface_values: Vec<_> = obj
-                            .implements_interfaces
+                    let implements_interfaces = match type_def {
+                        TypeDefinition::Object(obj) => Some(&obj.implements_interfaces),
+                        TypeDefinition::Interface(iface) => Some(&iface.implements_interfaces),
+                        _ => None,
+                    };
+                    if let Some(implements_interfaces) = implements_interfaces {
+                        let interface_values: Vec<_> = implements_interfaces
                             .iter()
                             .filter_map(|iface_name| ctx.schema.type_by_name(iface_name))
                             .map(|t| resolve_type_definition(t, &field.selections, ctx))
@@ -361,18 +379,7 @@ fn resolve_type_definition_selections<'exec>(
                 }
                 "enumValues" => {
                     if let TypeDefinition::Enum(enum_type) = type_def {
-                        let include_deprecated = field
-                            .arguments
-                            .as_ref()
-                            .and_then(|a| a.get_argument("includeDeprecated"))
-                            .and_then(|v| match v {
-                                AstValue::Boolean(b) => Some(*b),
-                                AstValue::Variable(var_name) => {
-                                    resolve_boolean_variable(var_name.as_str(), &ctx.variables)
-                                }
-                                _ => None,
-                            })
-                            .unwrap_or(false);
+                        let include_deprecated = include_deprecated(field, ctx);
 
                         let enum_values: Vec<_> = enum_type
                             .values
@@ -387,12 +394,7 @@ fn resolve_type_definition_selections<'exec>(
                 }
                 "inputFields" => match type_def {
                     TypeDefinition::InputObject(io) => {
-                        let fields_values: Vec<_> = io
-                            .fields
-                            .iter()
-                            .map(|f| resolve_input_value(f, &field.selections, ctx))
-                            .collect();
-                        Value::Array(fields_values)
+                        resolve_input_values(&io.fields, field, ctx)
                     }
                     _ => Value::Null,
                 },
@@ -503,14 +505,7 @@ fn resolve_directive_selections<'exec>(
                         .collect();
                     Value::Array(locs)
                 }
-                "args" => {
-                    let args: Vec<_> = d
-                        .arguments
-                        .iter()
-                        .map(|arg| resolve_input_value(arg, &field.selections, ctx))
-                        .collect();
-                    Value::Array(args)
-                }
+                "args" => resolve_input_values(&d.arguments, field, ctx),
                 "isRepeatable" => Value::Bool(d.repeatable),
                 "__typename" => Value::String("__Directive".into()),
                 _ => Value::Null,
@@ -598,7 +593,7 @@ fn resolve_schema_selections<'exec>(
                 _ => Value::Null,
             };
             schema_data.push((inner_field.selection_identifier(), value));
-        } else if let SelectionItem::FragmentSpread(_) = item {
+        } else if let SelectionItem::InlineFragment(_) = item {
             let selection_items = item.selections();
             if let Some(selection_items) = selection_items {
                 let new_data = resolve_schema_selections(selection_items, ctx);
-- 
2.43.0


From bfa32ddfd281beab0e8a597ae12be2cd9900ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 32/62] fix: replace unknown enum values in lists by null

---
 bin/router/src/executor/projection/plan.rs    | 11 ++++++
 .../src/executor/projection/response.rs       | 34 +++++++++++++------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/bin/router/src/executor/projection/plan.rs b/bin/router/src/executor/projection/plan.rs
index e14f10d..7bcde9d 100644
--- a/bin/router/src/executor/projection/plan.rs
+++ b/bin/router/src/executor/projection/plan.rs
@@ -179,6 +179,17 @@ impl From<ProjectionError> for FieldProjectionConditionError {
 }
 
 impl FieldProjectionCondition {
+    /// The values the field's enum type has in the public schema
+    pub fn enum_values(&self) -> Option<&HashSet<String>> {
+        match self {
+            FieldProjectionCondition::And(a, b) | FieldProjectionCondition::Or(a, b) => {
+                a.enum_values().or_else(|| b.enum_values())
+            }
+            FieldProjectionCondition::EnumValuesCondition(values) => Some(values),
+            _ => None,
+        }
+    }
+
     /// Combines two conditions with AND logic, reducing them to their minimum form
     pub fn and(&self, right: FieldProjectionCondition) -> FieldProjectionCondition {
         use FieldProjectionCondition::*;
diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index a9f9b6a..b5b56e1 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -221,22 +221,36 @@ fn project_selection_set<'a>(
             let null_propagation_checkpoint = buffer.len();
             let list_item_nullability = nullability.list_item();
             let item_non_null = list_item_nullability.is_some_and(FieldNullability::is_non_null);
+            let enum_values = selection
+                .conditions
+                .as_ref()
+                .and_then(FieldProjectionCondition::enum_values);
             buffer.put(OPEN_BRACKET);
             let mut first = true;
             for item in arr.iter() {
                 if !first {
                     buffer.put(COMMA);
                 }
-                let needs_null_propagation = project_selection_set(
-                    item,
-                    errors,
-                    selection,
-                    variable_values,
-                    buffer,
-                    parent_type_name.clone(),
-                    schema_metadata,
-                    list_item_nullability.unwrap_or(nullability),
-                )?;
+                let needs_null_propagation = match (enum_values, item) {
+                    // The condition on the field covers a single value only
+                    (Some(enum_values), Value::String(value))
+                        if !enum_values.contains(value.as_ref()) =>
+                    {
+                        buffer.put(NULL);
+                        errors.push(GraphQLError::from("Value is not a valid enum value"));
+                        NullPropagationDecision::PropagateNullValue
+                    }
+                    _ => project_selection_set(
+                        item,
+                        errors,
+                        selection,
+                        variable_values,
+                        buffer,
+                        parent_type_name.clone(),
+                        schema_metadata,
+                        list_item_nullability.unwrap_or(nullability),
+                    )?,
+                };
 
                 // A `null` at a Non-Null element of this list propagates to the list itself.
                 if needs_null_propagation.should_propagate() && item_non_null {
-- 
2.43.0


From 7f84abec7878d3a4d7a3833ef290387f32f7ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 33/62] fix: count every token once and do not count the end of
 the input against max_tokens

---
 lib/graphql-tools/src/parser/tokenizer.rs | 25 +++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/graphql-tools/src/parser/tokenizer.rs b/lib/graphql-tools/src/parser/tokenizer.rs
index b1af53a..5fdac2c 100644
--- a/lib/graphql-tools/src/parser/tokenizer.rs
+++ b/lib/graphql-tools/src/parser/tokenizer.rs
@@ -31,7 +31,11 @@ pub struct TokenStream<'a> {
     next_state: Option<(usize, Token<'a>, usize, Pos)>,
     recursion_limit: usize,
     token_limit: Option<usize>,
+    /// How many tokens were read up to `counted_off`
     token_count: usize,
+    /// Where the last counted token ends. Tokens before it, which are read again
+    /// after a reset of the stream, are not counted twice.
+    counted_off: usize,
 }
 
 impl TokenStream<'_> {
@@ -62,6 +66,10 @@ impl<'a> StreamOnce for TokenStream<'a> {
         }
         let old_pos = self.off;
         let (kind, len) = self.take_token()?;
+        if old_pos >= self.counted_off {
+            self.token_count += 1;
+            self.counted_off = self.off;
+        }
         let value = &self.buf[self.off - len..self.off];
         self.skip_whitespace();
         let token = Token { kind, value };
@@ -155,6 +163,7 @@ impl<'a> TokenStream<'a> {
             recursion_limit,
             token_limit,
             token_count: 0,
+            counted_off: 0,
         };
         me.skip_whitespace();
         me
@@ -166,19 +175,10 @@ impl<'a> TokenStream<'a> {
     fn advance_token<T>(&mut self, kind: Kind, size: usize) -> Result<(Kind, usize), T> {
         self.position.column += size;
         self.off += size;
-        // Should be counted?
-        if self.token_limit.is_some() {
-            self.token_count += 1;
-        }
         Ok((kind, size))
     }
 
     fn take_token(&mut self) -> Result<(Kind, usize), Error<Token<'a>, Token<'a>>> {
-        if let Some(limit) = self.token_limit {
-            if self.token_count >= limit {
-                return Err(Error::message_static_message("Token limit exceeded"));
-            }
-        }
         use self::Kind::*;
         let mut iter = self.buf[self.off..].char_indices();
         let cur_char = match iter.next() {
@@ -186,6 +186,13 @@ impl<'a> TokenStream<'a> {
             None => return Err(Error::end_of_input()),
         };
 
+        // The end of the input is not a token, so it's checked only if there is one
+        if let Some(limit) = self.token_limit {
+            if self.token_count >= limit && self.off >= self.counted_off {
+                return Err(Error::message_static_message("Token limit exceeded"));
+            }
+        }
+
         match cur_char {
             '(' | '[' | '{' => {
                 // Check for recursion limit
-- 
2.43.0


From 26bfc5d8214b2d1b222de929bdff8fe90723a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 34/62] fix: propagate every value of a repeated client header,
 and none to a hop-by-hop name

---
 bin/router/src/executor/headers/request.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/headers/request.rs b/bin/router/src/executor/headers/request.rs
index f7d4260..beea0b8 100644
--- a/bin/router/src/executor/headers/request.rs
+++ b/bin/router/src/executor/headers/request.rs
@@ -80,10 +80,13 @@ impl ApplyRequestHeader for RequestPropagateNamed {
             if is_denied_header(header_name) {
                 continue;
             }
-            if let Some(header_value) = ctx.client_request.headers.get(header_name) {
-                let destination_name = self.rename.as_ref().unwrap_or(header_name);
-                output_headers.append(destination_name, header_value.into());
+            let destination_name = self.rename.as_ref().unwrap_or(header_name);
+            // A header may have several lines
+            for header_value in ctx.client_request.headers.get_all(header_name) {
                 matched = true;
+                if !is_denied_header(destination_name) {
+                    output_headers.append(destination_name, header_value.into());
+                }
             }
         }
 
-- 
2.43.0


From 8ccb14eabbb5c292f9ea6794827de078fd34761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 35/62] fix: a restrictive cache-control directive was lost
 beside an unknown one, and public kept although a subgraph's value was
 unusable

---
 .../src/executor/headers/cache_control.rs     | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 547d31c..2bf82ff 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -27,6 +27,7 @@ fn parse(header: &str) -> Option<CacheControl> {
     }
 
     let mut p = CacheControl::default();
+    let mut is_invalid = false;
 
     for part in trimmed.split(',') {
         let part = part.trim();
@@ -44,30 +45,33 @@ fn parse(header: &str) -> Option<CacheControl> {
             "private" => p.is_private = true,
             "public" => p.is_public = true,
             "max-age" => {
-                let max_age = match value {
+                match value {
                     Some(v) => match v.parse::<u32>() {
-                        Ok(n) => Some(n),
+                        Ok(n) => p.max_age = Some(n),
                         Err(_) => {
                             warn!(target: targets::CACHE_CONTROL, value = v, "cache-control max-age has non-numeric value");
-                            return None;
+                            is_invalid = true;
                         }
                     },
                     None => {
                         warn!(target: targets::CACHE_CONTROL, "cache-control max-age is missing a value");
-
-                        return None;
+                        is_invalid = true;
                     }
                 };
-                p.max_age = max_age;
             }
             v => {
-                // one invalid part is enough to stop parsing and discard the header
                 warn!(target: targets::CACHE_CONTROL, directive = v, "cache-control has unrecognized directive");
-                return None;
+                is_invalid = true;
             }
         }
     }
 
+    // one invalid part is enough to discard the header,
+    // but not if the header forbids caching: that holds whatever else it says
+    if is_invalid && !(p.no_store || p.no_cache || p.is_private) {
+        return None;
+    }
+
     Some(p)
 }
 
@@ -190,18 +194,20 @@ pub fn finalize(
     }
 
     let mut acc: Option<CacheControl> = None;
+    let mut valid_values = 0;
     for v in values {
         if let Ok(s) = v.to_str() {
             if let Some(parsed) = parse(s) {
+                valid_values += 1;
                 merge_into(&mut acc, parsed);
             }
         }
     }
 
     if let Some(mut merged) = acc {
-        // a silent subgraph (no cache-control header at all) did not assert public,
+        // a silent subgraph (no or no valid cache-control header) did not assert public,
         // so public cannot hold when not every contacted subgraph sent it
-        if total_responses > values.len() {
+        if total_responses.max(values.len()) > valid_values {
             merged.is_public = false;
         }
         let serialized = to_header_value(&merged);
-- 
2.43.0


From c955cdabacbd98a358a14cc720ed939633fe25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 36/62] fix: propagate every line of a subgraph's response
 header

---
 bin/router/src/executor/headers/response.rs | 45 +++++++++++++++++++--
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index d18f141..774be0d 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -13,6 +13,7 @@ use crate::executor::{
 use crate::vrl::expressions::ExecutableProgram;
 use ahash::HashMap;
 use ntex::http::HeaderMap as NtexHeaderMap;
+use std::borrow::Cow;
 use std::iter::once;
 use std::sync::{Arc, Mutex};
 
@@ -106,11 +107,13 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
                         self.strategy,
                     );
                 }
-            } else if let Some(header_value) = ctx.subgraph_headers.get(header_name) {
+            } else if let Some(header_value) =
+                single_value(ctx.subgraph_headers, header_name, self.strategy)?
+            {
                 matched = true;
                 accumulator.write(
                     self.rename.as_ref().unwrap_or(header_name),
-                    header_value,
+                    &header_value,
                     self.strategy,
                 );
             }
@@ -138,7 +141,7 @@ impl ApplyResponseHeader for ResponsePropagateRegex {
         ctx: &ResponseExpressionContext,
         accumulator: &mut ResponseHeaderAggregator,
     ) -> Result<(), HeaderRuleRuntimeError> {
-        for (header_name, header_value) in ctx.subgraph_headers {
+        for header_name in ctx.subgraph_headers.keys() {
             if is_denied_response_header(header_name) {
                 continue;
             }
@@ -161,7 +164,15 @@ impl ApplyResponseHeader for ResponsePropagateRegex {
                 continue;
             }
 
-            accumulator.write(header_name, header_value, self.strategy);
+            if is_never_join_header(header_name) {
+                for header_value in ctx.subgraph_headers.get_all(header_name) {
+                    accumulator.write(header_name, header_value, self.strategy);
+                }
+            } else if let Some(header_value) =
+                single_value(ctx.subgraph_headers, header_name, self.strategy)?
+            {
+                accumulator.write(header_name, &header_value, self.strategy);
+            }
         }
 
         Ok(())
@@ -289,6 +300,32 @@ impl ResponseHeaderAggregator {
     }
 }
 
+/// The value of a header of a single subgraph response, which may have sent it in several lines.
+fn single_value<'a>(
+    headers: &'a HeaderMap,
+    name: &HeaderName,
+    strategy: HeaderAggregationStrategy,
+) -> Result<Option<Cow<'a, HeaderValue>>, HeaderRuleRuntimeError> {
+    let mut values = headers.get_all(name).iter();
+    let Some(first) = values.next() else {
+        return Ok(None);
+    };
+    let Some(last) = values.next_back() else {
+        return Ok(Some(Cow::Borrowed(first)));
+    };
+
+    match strategy {
+        HeaderAggregationStrategy::First => Ok(Some(Cow::Borrowed(first))),
+        HeaderAggregationStrategy::Last => Ok(Some(Cow::Borrowed(last))),
+        HeaderAggregationStrategy::Append => {
+            let all: Vec<HeaderValue> = headers.get_all(name).iter().cloned().collect();
+            join_with_comma(&all)
+                .map(|joined| Some(Cow::Owned(joined)))
+                .map_err(|_| HeaderRuleRuntimeError::BadHeaderValue(name.to_string()))
+        }
+    }
+}
+
 #[inline]
 fn join_with_comma(values: &[HeaderValue]) -> Result<HeaderValue, InvalidHeaderValue> {
     // Compute capacity: sum of lengths + ", ".len() * (n-1)
-- 
2.43.0


From 5ff4188786ef60c9b19353727a5c063ae2a368f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 37/62] fix: the default of a propagated response header is
 only for when no subgraph provides it

---
 .../src/executor/headers/cache_control.rs     |  2 ++
 bin/router/src/executor/headers/response.rs   | 29 +++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 2bf82ff..87343e3 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -179,6 +179,8 @@ pub fn finalize(
     force_no_store: bool,
     total_responses: usize,
 ) {
+    aggregator.apply_defaults();
+
     let Some((_, values)) = aggregator.entries.get(&http::header::CACHE_CONTROL) else {
         // there's no cache-control headers anywhere, so nothing to merge or poison - just leave it absent
         return;
diff --git a/bin/router/src/executor/headers/response.rs b/bin/router/src/executor/headers/response.rs
index 774be0d..c5cd1ef 100644
--- a/bin/router/src/executor/headers/response.rs
+++ b/bin/router/src/executor/headers/response.rs
@@ -127,7 +127,11 @@ impl ApplyResponseHeader for ResponsePropagateNamed {
                     return Ok(());
                 }
 
-                accumulator.write(destination_name, default_value, self.strategy);
+                // Other subgraphs may provide the header
+                accumulator
+                    .defaults
+                    .entry(destination_name.clone())
+                    .or_insert_with(|| default_value.clone());
             }
         }
 
@@ -238,6 +242,7 @@ impl ApplyResponseHeader for ResponseRemoveNamed {
                 continue;
             }
             accumulator.entries.remove(header_name);
+            accumulator.defaults.remove(header_name);
         }
 
         Ok(())
@@ -250,7 +255,7 @@ impl ApplyResponseHeader for ResponseRemoveRegex {
         _ctx: &ResponseExpressionContext,
         accumulator: &mut ResponseHeaderAggregator,
     ) -> Result<(), HeaderRuleRuntimeError> {
-        accumulator.entries.retain(|name, _| {
+        let is_kept = |name: &HeaderName| {
             if is_denied_response_header(name) {
                 // Denied headers (hop-by–hop) are never inserted in the first place
                 // and should not be removed here.
@@ -258,7 +263,9 @@ impl ApplyResponseHeader for ResponseRemoveRegex {
             }
 
             !self.regex.is_match(name.as_str().as_bytes())
-        });
+        };
+        accumulator.entries.retain(|name, _| is_kept(name));
+        accumulator.defaults.retain(|name, _| is_kept(name));
 
         Ok(())
     }
@@ -268,9 +275,10 @@ impl ResponseHeaderAggregator {
     /// Modify the outgoing client response headers based on the aggregated headers from subgraphs.
     #[inline]
     pub fn modify_client_response_headers(
-        self,
+        mut self,
         headers: &mut ntex::http::HeaderMap,
     ) -> Result<(), HeaderRuleRuntimeError> {
+        self.apply_defaults();
         for (name, (agg_strategy, mut values)) in self.entries {
             if values.is_empty() {
                 continue;
@@ -354,6 +362,8 @@ type AggregatedHeader = (HeaderAggregationStrategy, Vec<HeaderValue>);
 #[derive(Default, Debug)]
 pub struct ResponseHeaderAggregator {
     pub entries: HashMap<HeaderName, AggregatedHeader>,
+    /// Values of the headers no subgraph has provided
+    defaults: HashMap<HeaderName, HeaderValue>,
 }
 
 #[derive(Clone, Default, Debug)]
@@ -380,7 +390,16 @@ impl ResponseHeaderSink {
 
 impl ResponseHeaderAggregator {
     pub fn replace_with(&mut self, other: Self) {
-        self.entries = other.entries
+        *self = other;
+    }
+
+    /// Write the default values of the headers which were not provided by any subgraph.
+    pub fn apply_defaults(&mut self) {
+        for (name, value) in std::mem::take(&mut self.defaults) {
+            if !self.entries.contains_key(&name) {
+                self.write(&name, &value, HeaderAggregationStrategy::Last);
+            }
+        }
     }
 
     /// Write a header to the aggregator according to the specified strategy.
-- 
2.43.0


From 85f436ebd9a1313174978a9fb543667e38441ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 38/62] fix: an object of an inaccessible type was returned,
 with the name of the type

---
 .../src/executor/projection/response.rs       | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/executor/projection/response.rs b/bin/router/src/executor/projection/response.rs
index b5b56e1..9b43f80 100644
--- a/bin/router/src/executor/projection/response.rs
+++ b/bin/router/src/executor/projection/response.rs
@@ -270,6 +270,12 @@ fn project_selection_set<'a>(
                 ProjectionValueSource::ResponseData {
                     selections: Some(selections),
                 } => {
+                    if is_unknown_type(obj, schema_metadata) {
+                        // The type is not part of the public schema
+                        buffer.put(NULL);
+                        return Ok(NullPropagationDecision::PropagateNullValue);
+                    }
+
                     let null_propagation_checkpoint = buffer.len();
                     let mut first = true;
                     let type_name = TypeName::deferred(
@@ -601,11 +607,7 @@ fn resolve_type_name<'a>(
 
     let typename_field = field_val
         .and_then(|value| value.as_object())
-        .and_then(|obj| {
-            obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k)
-                .ok()
-                .and_then(|idx| obj[idx].1.as_str())
-        });
+        .and_then(|obj| typename_of(obj));
 
     if let Some(typename) = typename_field {
         return Ok(typename);
@@ -626,6 +628,24 @@ fn resolve_type_name<'a>(
         })
 }
 
+#[inline]
+fn typename_of<'a>(obj: &'a [(&str, Value)]) -> Option<&'a str> {
+    obj.binary_search_by_key(&TYPENAME_FIELD_NAME, |(k, _)| *k)
+        .ok()
+        .and_then(|idx| obj[idx].1.as_str())
+}
+
+/// Whether the object is of a type clients do not know (an inaccessible one).
+#[inline]
+fn is_unknown_type(obj: &[(&str, Value)], schema_metadata: &SchemaMetadata) -> bool {
+    typename_of(obj).is_some_and(|type_name| {
+        !schema_metadata.is_object_type(type_name)
+            && !schema_metadata.is_interface_type(type_name)
+            && !schema_metadata.is_union_type(type_name)
+            && !type_name.starts_with("__")
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use crate::query_planner::{
-- 
2.43.0


From 9671679005acca395edef243474cc8b1e39da539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 39/62] fix: internal types of the join specification were part
 of the public schema

---
 .../consumer_schema/strip_schema_internals.rs        |  9 ++++++---
 .../src/query_planner/federation_spec/definitions.rs | 12 ++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/query_planner/consumer_schema/strip_schema_internals.rs b/bin/router/src/query_planner/consumer_schema/strip_schema_internals.rs
index cc96af6..49937a5 100644
--- a/bin/router/src/query_planner/consumer_schema/strip_schema_internals.rs
+++ b/bin/router/src/query_planner/consumer_schema/strip_schema_internals.rs
@@ -4,8 +4,9 @@ use graphql_tools::parser::schema::*;
 use crate::query_planner::{
     federation_spec::{
         definitions::{
-            CorePurposesEnum, JoinDirectiveArgumentsScalar, JoinFieldSetScalar, JoinGraphEnum,
-            LinkImportScalar, LinkPurposeEnum, RequiresScopesScopeScalar,
+            CorePurposesEnum, JoinContextArgumentInput, JoinDirectiveArgumentsScalar,
+            JoinFieldSetScalar, JoinFieldValueScalar, JoinGraphEnum, LinkImportScalar,
+            LinkPurposeEnum, RequiresScopesScopeScalar,
         },
         demand_control::{CostDirective, ListSizeDirective},
         directives::{
@@ -41,12 +42,14 @@ static DIRECTIVES_TO_STRIP: [&str; 16] = [
     ListSizeDirective::NAME,
 ];
 
-static DEFINITIONS_TO_STRIP: [&str; 7] = [
+static DEFINITIONS_TO_STRIP: [&str; 9] = [
     LinkPurposeEnum::NAME,
     LinkImportScalar::NAME,
     JoinGraphEnum::NAME,
     JoinFieldSetScalar::NAME,
     JoinDirectiveArgumentsScalar::NAME,
+    JoinFieldValueScalar::NAME,
+    JoinContextArgumentInput::NAME,
     CorePurposesEnum::NAME,
     RequiresScopesScopeScalar::NAME,
 ];
diff --git a/bin/router/src/query_planner/federation_spec/definitions.rs b/bin/router/src/query_planner/federation_spec/definitions.rs
index bced6f5..606925e 100644
--- a/bin/router/src/query_planner/federation_spec/definitions.rs
+++ b/bin/router/src/query_planner/federation_spec/definitions.rs
@@ -39,3 +39,15 @@ pub struct JoinDirectiveArgumentsScalar {}
 impl JoinDirectiveArgumentsScalar {
     pub const NAME: &str = "join__DirectiveArguments";
 }
+
+pub struct JoinFieldValueScalar {}
+
+impl JoinFieldValueScalar {
+    pub const NAME: &str = "join__FieldValue";
+}
+
+pub struct JoinContextArgumentInput {}
+
+impl JoinContextArgumentInput {
+    pub const NAME: &str = "join__ContextArgument";
+}
-- 
2.43.0


From c070d0ee2a047256db44063f226bb134843782f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:14 +0000
Subject: [PATCH 40/62] fix: the smallest max-age counts when a subgraph sends
 several

---
 bin/router/src/executor/headers/cache_control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/router/src/executor/headers/cache_control.rs b/bin/router/src/executor/headers/cache_control.rs
index 87343e3..29dda98 100644
--- a/bin/router/src/executor/headers/cache_control.rs
+++ b/bin/router/src/executor/headers/cache_control.rs
@@ -47,7 +47,7 @@ fn parse(header: &str) -> Option<CacheControl> {
             "max-age" => {
                 match value {
                     Some(v) => match v.parse::<u32>() {
-                        Ok(n) => p.max_age = Some(n),
+                        Ok(n) => p.max_age = Some(p.max_age.map_or(n, |age| age.min(n))),
                         Err(_) => {
                             warn!(target: targets::CACHE_CONTROL, value = v, "cache-control max-age has non-numeric value");
                             is_invalid = true;
-- 
2.43.0


From d5a1df97c8202e2de40d56fbccde5b88296465d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 41/62] fix: an inline fragment without a type condition in an
 introspection query made the router panic

---
 .../pipeline/flatten_fragments.rs             | 52 ++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs b/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
index c39261b..8bbb8a3 100644
--- a/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
+++ b/bin/router/src/query_planner/ast/normalization/pipeline/flatten_fragments.rs
@@ -185,7 +185,12 @@ fn process_field(
     parent_type_def: &SupergraphDefinition,
     field: &mut Field<'static, String>,
 ) -> Result<(), NormalizationError> {
-    if field.name.starts_with("__") || field.selection_set.items.is_empty() {
+    if field.name.starts_with("__") {
+        flatten_introspection_field(field);
+        return Ok(());
+    }
+
+    if field.selection_set.items.is_empty() {
         return Ok(());
     }
 
@@ -211,6 +216,51 @@ fn process_field(
     )
 }
 
+/// The introspection types are not part of the supergraph. All of them are object types,
+/// so the type condition of a fragment, if there is one, is always the type of the parent field.
+fn flatten_introspection_field(field: &mut Field<'static, String>) {
+    let type_name = match field.name.as_str() {
+        "__schema" => "__Schema",
+        "__type" | "types" | "queryType" | "mutationType" | "subscriptionType" | "type"
+        | "ofType" | "interfaces" | "possibleTypes" => "__Type",
+        "fields" => "__Field",
+        "args" | "inputFields" => "__InputValue",
+        "enumValues" => "__EnumValue",
+        "directives" => "__Directive",
+        _ => return,
+    };
+
+    flatten_introspection_selection_set(type_name, &mut field.selection_set);
+}
+
+fn flatten_introspection_selection_set(
+    type_name: &str,
+    selection_set: &mut SelectionSet<'static, String>,
+) {
+    for selection in std::mem::take(&mut selection_set.items) {
+        match selection {
+            Selection::Field(mut field) => {
+                flatten_introspection_field(&mut field);
+                selection_set.items.push(Selection::Field(field));
+            }
+            Selection::InlineFragment(mut fragment) => {
+                flatten_introspection_selection_set(type_name, &mut fragment.selection_set);
+                if fragment.directives.is_empty() {
+                    selection_set.items.extend(fragment.selection_set.items);
+                } else {
+                    fragment.type_condition = Some(TypeCondition::On(type_name.to_string()));
+                    selection_set
+                        .items
+                        .push(Selection::InlineFragment(fragment));
+                }
+            }
+            Selection::FragmentSpread(_) => {
+                // Fragment spreads should have been inlined in a previous step.
+            }
+        }
+    }
+}
+
 #[inline]
 fn process_inline_fragment(
     state: &SupergraphState,
-- 
2.43.0


From fc2849cd7a326f4c2517bb810a311aff20597085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 42/62] fix: introspection of interfaces which are implemented
 by interfaces, and of fields selected in several fragments

---
 .../src/executor/introspection/resolve.rs     | 93 +++++++++++--------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/bin/router/src/executor/introspection/resolve.rs b/bin/router/src/executor/introspection/resolve.rs
index f361660..47d439b 100644
--- a/bin/router/src/executor/introspection/resolve.rs
+++ b/bin/router/src/executor/introspection/resolve.rs
@@ -17,6 +17,7 @@ use sonic_rs::JsonValueTrait;
 
 use crate::executor::execution::plan::CoerceVariablesPayload;
 use crate::executor::introspection::schema::SchemaMetadata;
+use crate::executor::response::merge::deep_merge;
 use crate::executor::response::value::Value;
 
 pub struct IntrospectionContext {
@@ -86,6 +87,22 @@ fn include_deprecated(field: &FieldSelection, ctx: &IntrospectionContext) -> boo
         .unwrap_or(false)
 }
 
+/// The fields of an object, which may have been selected several times
+/// (in conditional fragments), each time with other sub-selections.
+fn into_object<'exec>(mut data: Vec<(&'exec str, Value<'exec>)>) -> Value<'exec> {
+    data.sort_by_key(|(k, _)| *k);
+
+    let mut object: Vec<(&'exec str, Value<'exec>)> = Vec::with_capacity(data.len());
+    for (key, value) in data {
+        match object.last_mut() {
+            Some((last_key, last_value)) if *last_key == key => deep_merge(last_value, value),
+            _ => object.push((key, value)),
+        }
+    }
+
+    Value::Object(object)
+}
+
 fn resolve_input_values<'exec>(
     input_values: &'exec [InputValue],
     field: &'exec FieldSelection,
@@ -141,9 +158,7 @@ fn resolve_input_value<'exec>(
     selections: &'exec SelectionSet,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut iv_data = resolve_input_value_selections(iv, &selections.items, ctx);
-    iv_data.sort_by_key(|(k, _)| *k);
-    Value::Object(iv_data)
+    into_object(resolve_input_value_selections(iv, &selections.items, ctx))
 }
 
 fn resolve_input_value_selections<'exec>(
@@ -188,9 +203,7 @@ fn resolve_field<'exec>(
     selections: &'exec SelectionSet,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut field_data = resolve_field_selections(f, &selections.items, ctx);
-    field_data.sort_by_key(|(k, _)| *k);
-    Value::Object(field_data)
+    into_object(resolve_field_selections(f, &selections.items, ctx))
 }
 
 fn resolve_field_selections<'exec>(
@@ -231,9 +244,7 @@ fn resolve_enum_value<'exec>(
     ev: &'exec EnumValue,
     selections: &'exec SelectionSet,
 ) -> Value<'exec> {
-    let mut ev_data = resolve_enum_value_selections(ev, &selections.items);
-    ev_data.sort_by_key(|(k, _)| *k);
-    Value::Object(ev_data)
+    into_object(resolve_enum_value_selections(ev, &selections.items))
 }
 
 fn resolve_enum_value_selections<'exec>(
@@ -267,14 +278,23 @@ fn resolve_enum_value_selections<'exec>(
     ev_data
 }
 
+fn type_definitions(ctx: &IntrospectionContext) -> impl Iterator<Item = &TypeDefinition> {
+    ctx.schema.definitions.iter().filter_map(|def| match def {
+        Definition::TypeDefinition(type_def) => Some(type_def),
+        _ => None,
+    })
+}
+
 fn resolve_type_definition<'exec>(
     type_def: &'exec TypeDefinition,
     selections: &'exec SelectionSet,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut type_data = resolve_type_definition_selections(type_def, &selections.items, ctx);
-    type_data.sort_by_key(|(k, _)| *k);
-    Value::Object(type_data)
+    into_object(resolve_type_definition_selections(
+        type_def,
+        &selections.items,
+        ctx,
+    ))
 }
 
 fn resolve_type_definition_selections<'exec>(
@@ -363,13 +383,14 @@ fn resolve_type_definition_selections<'exec>(
                 }
                 "possibleTypes" => {
                     if let TypeDefinition::Interface(_) | TypeDefinition::Union(_) = type_def {
-                        let possible_types: Vec<Value<'exec>> = ctx
+                        let names = ctx
                             .metadata
                             .possible_types
-                            .get_possible_types(type_def.name())
-                            .into_iter()
-                            .filter(|v| v != type_def.name())
-                            .filter_map(|name| ctx.schema.type_by_name(name.as_str()))
+                            .get_possible_types(type_def.name());
+                        let possible_types: Vec<Value<'exec>> = type_definitions(ctx)
+                            .filter(|t| {
+                                matches!(t, TypeDefinition::Object(_)) && names.contains(t.name())
+                            })
                             .map(|t| resolve_type_definition(t, &field.selections, ctx))
                             .collect();
                         Value::Array(possible_types)
@@ -393,9 +414,7 @@ fn resolve_type_definition_selections<'exec>(
                     }
                 }
                 "inputFields" => match type_def {
-                    TypeDefinition::InputObject(io) => {
-                        resolve_input_values(&io.fields, field, ctx)
-                    }
+                    TypeDefinition::InputObject(io) => resolve_input_values(&io.fields, field, ctx),
                     _ => Value::Null,
                 },
                 "ofType" => Value::Null,
@@ -419,9 +438,12 @@ fn resolve_wrapper_type<'exec>(
     selections: &'exec SelectionSet,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut type_data = resolve_wrapper_type_selections(kind, inner_type, &selections.items, ctx);
-    type_data.sort_by_key(|(k, _)| *k);
-    Value::Object(type_data)
+    into_object(resolve_wrapper_type_selections(
+        kind,
+        inner_type,
+        &selections.items,
+        ctx,
+    ))
 }
 
 fn resolve_wrapper_type_selections<'exec>(
@@ -478,9 +500,7 @@ fn resolve_directive<'exec>(
     selections: &'exec SelectionSet,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut directive_data = resolve_directive_selections(d, &selections.items, ctx);
-    directive_data.sort_by_key(|(k, _)| *k);
-    Value::Object(directive_data)
+    into_object(resolve_directive_selections(d, &selections.items, ctx))
 }
 
 fn resolve_directive_selections<'exec>(
@@ -526,10 +546,7 @@ fn resolve_schema_field<'exec>(
     field: &'exec FieldSelection,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let mut schema_data = resolve_schema_selections(&field.selections.items, ctx);
-
-    schema_data.sort_by_key(|(k, _)| *k);
-    Value::Object(schema_data)
+    into_object(resolve_schema_selections(&field.selections.items, ctx))
 }
 
 fn resolve_schema_selections<'exec>(
@@ -543,10 +560,8 @@ fn resolve_schema_selections<'exec>(
             let value = match inner_field.name.as_str() {
                 "description" => Value::Null,
                 "types" => {
-                    let types = ctx
-                        .schema
-                        .type_map()
-                        .values()
+                    // In the order of the schema, which is the same each time
+                    let types = type_definitions(ctx)
                         .map(|t| resolve_type_definition(t, &inner_field.selections, ctx))
                         .collect();
                     Value::Array(types)
@@ -613,11 +628,11 @@ pub fn resolve_introspection<'exec>(
         .metadata
         .expect_root_type_name(operation_definition.operation_kind.as_ref());
 
-    let mut data =
-        resolve_root_introspection_selections(root_type_name, &root_selection_set.items, ctx);
-
-    data.sort_by_key(|(k, _)| *k);
-    Value::Object(data)
+    into_object(resolve_root_introspection_selections(
+        root_type_name,
+        &root_selection_set.items,
+        ctx,
+    ))
 }
 
 fn resolve_root_introspection_selections<'exec>(
-- 
2.43.0


From 90f8b5ea66ccdb6764adc63e46440a704b73bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 43/62] fix: a token was refused when it arrived while the keys
 were being replaced

---
 bin/router/src/jwt/jwks_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/router/src/jwt/jwks_manager.rs b/bin/router/src/jwt/jwks_manager.rs
index 4622ada..cf7f05e 100644
--- a/bin/router/src/jwt/jwks_manager.rs
+++ b/bin/router/src/jwt/jwks_manager.rs
@@ -179,7 +179,7 @@ impl JwksSource {
     }
 
     pub fn get_jwk_set(&self) -> Result<Arc<JwkSet>, JwksSourceError> {
-        if let Ok(jwk) = self.jwk.try_read() {
+        if let Ok(jwk) = self.jwk.read() {
             if let Some(jwk) = jwk.as_ref() {
                 return Ok(jwk.clone());
             }
-- 
2.43.0


From a90783bfa53197f53e756e853e23cf5c39437a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:14 +0000
Subject: [PATCH 44/62] fix: a CORS policy can switch off credentials that are
 allowed globally

---
 bin/router/src/pipeline/cors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 89c895a..9599b5f 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -35,10 +35,10 @@ impl CompiledCORSPolicy {
                 .or_else(|| global.allow_headers_value.clone()),
             expose_headers_value: header_value_from_list(&policy_config.expose_headers)
                 .or_else(|| global.expose_headers_value.clone()),
-            allow_credentials_value: if policy_config.allow_credentials == Some(true) {
-                Some(HeaderValue::from_static("true"))
-            } else {
-                global.allow_credentials_value.clone()
+            allow_credentials_value: match policy_config.allow_credentials {
+                Some(true) => Some(HeaderValue::from_static("true")),
+                Some(false) => None,
+                None => global.allow_credentials_value.clone(),
             },
             max_age_value: if let Some(max_age) = policy_config.max_age {
                 HeaderValue::from_str(&max_age.to_string()).ok()
-- 
2.43.0


From fa0b578235cd24e4f3f51bb69ea32d1ac3f42031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:14 +0000
Subject: [PATCH 45/62] fix: an opaque origin no policy matches is not granted
 access

---
 bin/router/src/pipeline/cors.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/pipeline/cors.rs b/bin/router/src/pipeline/cors.rs
index 9599b5f..dbadb62 100644
--- a/bin/router/src/pipeline/cors.rs
+++ b/bin/router/src/pipeline/cors.rs
@@ -241,7 +241,9 @@ impl Cors {
         let origin_str = current_origin.to_str().ok().unwrap_or_default();
         if let Some(policy) = self.find_policy_for_origin(origin_str) {
             policy.apply_to(req, headers, current_origin);
-        } else {
+        } else if current_origin.as_bytes() != b"null" {
+            // An opaque origin (a sandboxed iframe, a `data:` URL) sends `Origin: null`,
+            // for which `null` would be a match and not a refusal.
             headers.insert(
                 header::ACCESS_CONTROL_ALLOW_ORIGIN,
                 HeaderValue::from_static("null"),
-- 
2.43.0


From e0586515bab50ee125a01f1cabec8485579a6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 46/62] fix: list deprecated input values unless introspection
 asks otherwise

---
 bin/router/src/executor/introspection/resolve.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bin/router/src/executor/introspection/resolve.rs b/bin/router/src/executor/introspection/resolve.rs
index 47d439b..192aaee 100644
--- a/bin/router/src/executor/introspection/resolve.rs
+++ b/bin/router/src/executor/introspection/resolve.rs
@@ -71,8 +71,8 @@ fn is_deprecated(directives: &[Directive]) -> bool {
     directives.iter().any(|d| d.name == "deprecated")
 }
 
-/// The value of the field's `includeDeprecated` argument, `false` by default.
-fn include_deprecated(field: &FieldSelection, ctx: &IntrospectionContext) -> bool {
+/// The value of the field's `includeDeprecated` argument, if it has one.
+fn include_deprecated(field: &FieldSelection, ctx: &IntrospectionContext) -> Option<bool> {
     field
         .arguments
         .as_ref()
@@ -84,7 +84,6 @@ fn include_deprecated(field: &FieldSelection, ctx: &IntrospectionContext) -> boo
             }
             _ => None,
         })
-        .unwrap_or(false)
 }
 
 /// The fields of an object, which may have been selected several times
@@ -108,7 +107,8 @@ fn resolve_input_values<'exec>(
     field: &'exec FieldSelection,
     ctx: &'exec IntrospectionContext,
 ) -> Value<'exec> {
-    let include_deprecated = include_deprecated(field, ctx);
+    // Unlike fields and enum values, input values are all listed unless asked otherwise
+    let include_deprecated = include_deprecated(field, ctx).unwrap_or(true);
 
     Value::Array(
         input_values
@@ -349,7 +349,8 @@ fn resolve_type_definition_selections<'exec>(
                         _ => None,
                     };
                     if let Some(fields) = fields {
-                        let include_deprecated = include_deprecated(field, ctx);
+                        let include_deprecated =
+                            include_deprecated(field, ctx).unwrap_or(false);
 
                         let fields_values: Vec<Value<'exec>> = fields
                             .iter()
@@ -400,7 +401,8 @@ fn resolve_type_definition_selections<'exec>(
                 }
                 "enumValues" => {
                     if let TypeDefinition::Enum(enum_type) = type_def {
-                        let include_deprecated = include_deprecated(field, ctx);
+                        let include_deprecated =
+                            include_deprecated(field, ctx).unwrap_or(false);
 
                         let enum_values: Vec<_> = enum_type
                             .values
-- 
2.43.0


From c30087a9e80ee25b6ced650dd6b676da5a7933c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 47/62] fix: the cost formula of an operation was shared
 between plans with different overrides

---
 bin/router/src/pipeline/demand_control/runtime.rs | 14 +++++++++++++-
 bin/router/src/pipeline/mod.rs                    |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/pipeline/demand_control/runtime.rs b/bin/router/src/pipeline/demand_control/runtime.rs
index 7d3fdbc..45b026c 100644
--- a/bin/router/src/pipeline/demand_control/runtime.rs
+++ b/bin/router/src/pipeline/demand_control/runtime.rs
@@ -1,4 +1,5 @@
 use std::collections::BTreeMap;
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use crate::config::demand_control::{
@@ -24,8 +25,10 @@ use ahash::{HashMap as AHashMap, HashMapExt};
 use http::{HeaderName, HeaderValue};
 use moka::future::Cache;
 use tracing::{debug, info, warn};
+use xxhash_rust::xxh3::Xxh3;
 
 use crate::pipeline::error::{ClientPipelineError, PipelineError};
+use crate::pipeline::progressive_override::{RequestOverrideContext, StableOverrideContext};
 
 use super::formula::{
     compile_cost_expr_for_operation, evaluate_formula_plan, DemandControlFormulaPlan,
@@ -103,12 +106,21 @@ impl DemandControlRuntime {
         operation_for_plan: &'exec OperationDefinition,
         root_type_name: &'exec str,
         normalized_operation_hash: u64,
+        request_override_context: &'exec RequestOverrideContext,
         operation_identity: GraphQLSpanOperationIdentity<'exec>,
     ) -> Result<DemandControlExecutionContext, PipelineError> {
         let operation_name = operation_identity.name;
+        // An operation has one plan (and so one formula) for each combination of the active overrides
+        let formula_cache_key = {
+            let mut hasher = Xxh3::new();
+            normalized_operation_hash.hash(&mut hasher);
+            StableOverrideContext::new(&supergraph.planner.supergraph, request_override_context)
+                .hash(&mut hasher);
+            hasher.finish()
+        };
         let compiled_plan = self
             .formula_cache
-            .entry(normalized_operation_hash)
+            .entry(formula_cache_key)
             .or_insert_with(async {
                 Arc::new(self.compile_demand_control_plan(
                     query_plan,
diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index a364a07..d9be94e 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -884,6 +884,7 @@ pub async fn execute_pipeline<'exec>(
                 normalize_payload.operation_for_plan.as_ref(),
                 normalize_payload.root_type_name.as_str(),
                 normalize_payload.normalized_operation_hash,
+                &progressive_override_ctx,
                 (&normalize_payload.operation_identity).into(),
             )
             .await
-- 
2.43.0


From 18c1319cbe6cecf8a50d236b51351bcf388b92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 48/62] fix: estimate conditional fragments, and single values
 in place of lists, at their cost

---
 .../src/pipeline/demand_control/formula.rs    | 128 ++++++++++++++----
 1 file changed, 98 insertions(+), 30 deletions(-)

diff --git a/bin/router/src/pipeline/demand_control/formula.rs b/bin/router/src/pipeline/demand_control/formula.rs
index 398e0e1..87b15c0 100644
--- a/bin/router/src/pipeline/demand_control/formula.rs
+++ b/bin/router/src/pipeline/demand_control/formula.rs
@@ -19,7 +19,11 @@ use crate::telemetry::logging::targets;
 use sonic_rs::{JsonContainerTrait, JsonValueTrait, Value};
 use tracing::warn;
 
-use std::{collections::BTreeMap, fmt, sync::Arc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt,
+    sync::Arc,
+};
 
 use crate::pipeline::error::{ClientPipelineError, PipelineError};
 
@@ -27,6 +31,16 @@ use crate::pipeline::error::{ClientPipelineError, PipelineError};
 /// Each entry is (remaining path from the current selection, size expression).
 type SizeOverrides = Vec<(Vec<String>, CostExpr)>;
 
+/// A slicing argument that is present on a field.
+#[derive(Clone, Debug)]
+pub(crate) struct SlicingArgument {
+    value: AstValue,
+    /// Path within the value
+    path: Vec<String>,
+    /// Whether the value at the path is a list, whose length is what counts
+    is_list: bool,
+}
+
 /// A mathematical cost expression compiled once per query shape.
 /// Evaluated with only variable lookups, so no schema traversal at request time.
 #[derive(Clone, Debug)]
@@ -46,7 +60,7 @@ pub(crate) enum CostExpr {
     /// Integer resolved from request variables (list size via slicing arguments).
     ListSize {
         field_name: String,
-        args: Vec<(AstValue, Vec<String>)>, // (argument value, path within value)
+        args: Vec<SlicingArgument>,
         require_one: bool,
         default: usize,
     },
@@ -124,7 +138,7 @@ impl fmt::Display for CostExpr {
             } => {
                 let parts: Vec<String> = args
                     .iter()
-                    .map(|(v, path)| match v {
+                    .map(|SlicingArgument { value, path, .. }| match value {
                         AstValue::Variable(name) if path.is_empty() => format!("${name}"),
                         AstValue::Variable(name) => format!("${name}.{}", path.join(".")),
                         AstValue::Int(n) => n.to_string(),
@@ -288,8 +302,8 @@ fn eval_cost_expr(
             if *require_one {
                 let mut resolved_count = 0usize;
                 let mut only_value = 0u64;
-                for (value, path) in args {
-                    if let Some(resolved) = resolve_integer_value(value, path, variable_payload) {
+                for arg in args {
+                    if let Some(resolved) = resolve_slicing_argument(arg, variable_payload) {
                         resolved_count += 1;
                         only_value = resolved;
                     }
@@ -313,8 +327,8 @@ fn eval_cost_expr(
                 }
             } else {
                 let mut max_value: Option<u64> = None;
-                for (value, path) in args {
-                    if let Some(resolved) = resolve_integer_value(value, path, variable_payload) {
+                for arg in args {
+                    if let Some(resolved) = resolve_slicing_argument(arg, variable_payload) {
                         max_value = Some(match max_value {
                             Some(current_max) => current_max.max(resolved),
                             None => resolved,
@@ -404,7 +418,7 @@ fn compile_cost_expr_for_selection_set<'exec>(
                 ));
             }
             SelectionItem::InlineFragment(fragment) => {
-                field_exprs.push(compile_cost_expr_for_selection_set(
+                let fragment_expr = compile_cost_expr_for_selection_set(
                     &fragment.selections,
                     operation_fragments,
                     fragment.type_condition.as_str(),
@@ -413,6 +427,11 @@ fn compile_cost_expr_for_selection_set<'exec>(
                     visited_fragments,
                     inherited_overrides,
                     default_list_size,
+                );
+                field_exprs.push(apply_conditions(
+                    fragment.include_if.as_ref(),
+                    fragment.skip_if.as_ref(),
+                    fragment_expr,
                 ));
             }
             SelectionItem::FragmentSpread(fragment_name) => {
@@ -510,8 +529,13 @@ fn compile_cost_expr_for_field_selection<'exec>(
             base_parts.insert(0, CostExpr::Const(base_cost));
         }
         if let Some(list_size_directive) = &def.list_size {
-            let size_expr =
-                compile_cost_expr_for_list_size(list_size_directive, field, default_list_size);
+            let size_expr = compile_cost_expr_for_list_size(
+                list_size_directive,
+                field,
+                &def.argument_types,
+                supergraph_state,
+                default_list_size,
+            );
             if let Some(sized_fields) = &list_size_directive.sized_fields {
                 for path in sized_fields {
                     all_child_overrides.push((path.clone(), size_expr.clone()));
@@ -623,15 +647,27 @@ fn compile_cost_expr_for_entities_field_selection<'exec>(
 }
 
 fn apply_field_conditions(field: &FieldSelection, field_cost_expr: CostExpr) -> CostExpr {
-    let mut expr = field_cost_expr;
-    if let Some(include_if) = &field.include_if {
+    apply_conditions(
+        field.include_if.as_ref(),
+        field.skip_if.as_ref(),
+        field_cost_expr,
+    )
+}
+
+fn apply_conditions(
+    include_if: Option<&String>,
+    skip_if: Option<&String>,
+    expr: CostExpr,
+) -> CostExpr {
+    let mut expr = expr;
+    if let Some(include_if) = include_if {
         expr = CostExpr::Cond {
             variable: include_if.clone(),
             if_true: Box::new(expr),
             if_false: Box::new(CostExpr::Const(0)),
         };
     }
-    if let Some(skip_if) = &field.skip_if {
+    if let Some(skip_if) = skip_if {
         expr = CostExpr::Cond {
             variable: skip_if.clone(),
             if_true: Box::new(CostExpr::Const(0)),
@@ -644,6 +680,8 @@ fn apply_field_conditions(field: &FieldSelection, field_cost_expr: CostExpr) ->
 fn compile_cost_expr_for_list_size(
     directive: &ListSizeDirective,
     field: &FieldSelection,
+    argument_types: &HashMap<String, TypeNode>,
+    supergraph_state: &SupergraphState,
     default_list_size: usize,
 ) -> CostExpr {
     if let Some(assumed_size) = directive.assumed_size {
@@ -656,7 +694,12 @@ fn compile_cost_expr_for_list_size(
     if let Some(arguments) = &field.arguments {
         for segments in slicing_arguments {
             if let Some(root_value) = arguments.get_argument(&segments[0]) {
-                args.push((root_value.clone(), segments[1..].to_vec()));
+                args.push(SlicingArgument {
+                    value: root_value.clone(),
+                    path: segments[1..].to_vec(),
+                    is_list: slicing_argument_type(segments, argument_types, supergraph_state)
+                        .is_some_and(|arg_type| arg_type.is_list()),
+                });
             }
         }
     }
@@ -676,6 +719,24 @@ fn compile_cost_expr_for_list_size(
     }
 }
 
+fn slicing_argument_type<'a>(
+    segments: &[String],
+    argument_types: &'a HashMap<String, TypeNode>,
+    supergraph_state: &'a SupergraphState,
+) -> Option<&'a TypeNode> {
+    let (argument_name, path) = segments.split_first()?;
+    path.iter().try_fold(
+        argument_types.get(argument_name)?,
+        |parent_type, field_name| match supergraph_state.definitions.get(parent_type.inner_type()) {
+            Some(SupergraphDefinition::InputObject(input_object)) => input_object
+                .fields
+                .get(field_name)
+                .map(|input_field| &input_field.field_type),
+            _ => None,
+        },
+    )
+}
+
 fn estimate_input_value_cost(
     value: &AstValue,
     value_type: &TypeNode,
@@ -762,12 +823,9 @@ where
     I: Iterator<Item = (&'a str, &'a V)>,
     F: Fn(&V, &TypeNode) -> u64,
 {
-    let TypeNode::Named(type_name) = value_type.unwrap_non_null() else {
-        return 0;
-    };
-
+    // A single object in place of a list is a list of that object
     let Some(SupergraphDefinition::InputObject(input_object)) =
-        supergraph_state.definitions.get(type_name)
+        supergraph_state.definitions.get(value_type.inner_type())
     else {
         return 0;
     };
@@ -802,19 +860,21 @@ fn is_input_object_typed(value_type: &TypeNode, supergraph_state: &SupergraphSta
     }
 }
 
+fn resolve_slicing_argument(
+    arg: &SlicingArgument,
+    variable_payload: &CoerceVariablesPayload,
+) -> Option<u64> {
+    resolve_integer_value(&arg.value, &arg.path, arg.is_list, variable_payload)
+}
+
 fn resolve_integer_value(
     value: &AstValue,
     path: &[String],
+    is_list: bool,
     variable_payload: &CoerceVariablesPayload,
 ) -> Option<u64> {
     match value {
-        AstValue::Int(v) => {
-            if path.is_empty() {
-                Some((*v).max(0) as u64)
-            } else {
-                None
-            }
-        }
+        AstValue::Int(v) if path.is_empty() && !is_list => Some((*v).max(0) as u64),
         AstValue::List(items) => {
             if path.is_empty() {
                 Some(items.len() as u64)
@@ -827,23 +887,31 @@ fn resolve_integer_value(
                 .variables_map
                 .as_ref()
                 .and_then(|variables| variables.get(var_name))?;
-            resolve_integer_from_json_value(value, path)
+            resolve_integer_from_json_value(value, path, is_list)
         }
+        AstValue::Null => None,
+        // A single value in place of a list is a list of that value
+        _ if path.is_empty() && is_list => Some(1),
         AstValue::Object(object) => {
             let (head, tail) = path.split_first()?;
 
             let nested_value = object.get(head)?;
-            resolve_integer_value(nested_value, tail, variable_payload)
+            resolve_integer_value(nested_value, tail, is_list, variable_payload)
         }
         _ => None,
     }
 }
 
-fn resolve_integer_from_json_value(value: &Value, path: &[String]) -> Option<u64> {
+fn resolve_integer_from_json_value(value: &Value, path: &[String], is_list: bool) -> Option<u64> {
     if let Some((head, tail)) = path.split_first() {
         let object = value.as_object()?;
         let nested = object.get(head)?;
-        return resolve_integer_from_json_value(nested, tail);
+        return resolve_integer_from_json_value(nested, tail, is_list);
+    }
+
+    if is_list && !value.is_null() {
+        // A single value in place of a list is a list of that value
+        return Some(value.as_array().map_or(1, |arr| arr.len() as u64));
     }
 
     if let Some(v) = value.as_u64() {
-- 
2.43.0


From bc620749b0cefbdced7fcc8ffd596679a48683aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:02 +0000
Subject: [PATCH 49/62] fix: refuse a document of several operations when none
 is named

---
 .../pipeline/drop_unused_operations.rs              | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs b/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
index 9633d53..e4f2284 100644
--- a/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
+++ b/bin/router/src/query_planner/ast/normalization/pipeline/drop_unused_operations.rs
@@ -8,6 +8,19 @@ use crate::query_planner::ast::normalization::{
 pub fn drop_unused_operations(ctx: &mut NormalizationContext) -> Result<(), NormalizationError> {
     let mut already_found = false;
 
+    // Without a name, the operation is only known if it is the only one of the document.
+    if ctx.operation_name.is_none() {
+        let operations = ctx
+            .document
+            .definitions
+            .iter()
+            .filter(|def| matches!(def, Definition::Operation(_)))
+            .count();
+        if operations > 1 {
+            return Err(NormalizationError::MultipleMatchingOperationsFound);
+        }
+    }
+
     // GraphQL validation stage should prevent:
     // - mix of anonymous and named operations
     // - two operations of the same name
-- 
2.43.0


From 390144dd825b46b229f79d91d85ca8145781460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:16 +0000
Subject: [PATCH 50/62] fix: judge error masking by the responding subgraph,
 and accept error extensions of any type

---
 .../src/executor/execution/error_masking.rs   | 10 ++---
 .../src/executor/response/graphql_error.rs    | 42 ++++++++++++++-----
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/bin/router/src/executor/execution/error_masking.rs b/bin/router/src/executor/execution/error_masking.rs
index 7dc90aa..e7bbca7 100644
--- a/bin/router/src/executor/execution/error_masking.rs
+++ b/bin/router/src/executor/execution/error_masking.rs
@@ -116,13 +116,12 @@ impl RedactExtensionsPlan {
         let mut allowed_keys = HashSet::new();
 
         for key in list {
+            allowed_keys.insert(key.as_str());
             match key.as_str() {
                 "code" => allow_code = true,
                 "service" => allow_service_name = true,
                 "affectedPath" => allow_affected_path = true,
-                other => {
-                    allowed_keys.insert(other);
-                }
+                _ => {}
             }
         }
 
@@ -154,9 +153,8 @@ impl RedactExtensionsPlan {
             "affectedPath" => {
                 extensions.affected_path = None;
             }
-            _ => {
-                extensions.extensions.remove(key);
-            }
+            _ => {}
         }
+        extensions.extensions.remove(key);
     }
 }
diff --git a/bin/router/src/executor/response/graphql_error.rs b/bin/router/src/executor/response/graphql_error.rs
index 1258f2a..c20862a 100644
--- a/bin/router/src/executor/response/graphql_error.rs
+++ b/bin/router/src/executor/response/graphql_error.rs
@@ -3,7 +3,7 @@ use graphql_tools::parser::Pos;
 use graphql_tools::validation::utils::ValidationError;
 use http::StatusCode;
 use serde::{de, Deserialize, Deserializer, Serialize};
-use sonic_rs::{json, Value};
+use sonic_rs::{json, JsonValueTrait, Value};
 use std::collections::{BTreeMap, HashMap};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
@@ -196,12 +196,15 @@ impl GraphQLError {
     /// }));
     /// ```
     pub fn add_subgraph_name<TStr: Into<String>>(mut self, subgraph_name: TStr) -> Self {
-        self.extensions
-            .service_name
-            .get_or_insert(subgraph_name.into());
-        self.extensions
-            .code
-            .get_or_insert("DOWNSTREAM_SERVICE_ERROR".to_string());
+        // What a subgraph says about the origin of an error is not trusted:
+        // `service` is always the subgraph that responded with the error.
+        self.extensions.extensions.remove("service");
+        self.extensions.service_name = Some(subgraph_name.into());
+        if !self.extensions.extensions.contains_key("code") {
+            self.extensions
+                .code
+                .get_or_insert("DOWNSTREAM_SERVICE_ERROR".to_string());
+        }
         self
     }
 
@@ -222,6 +225,7 @@ impl GraphQLError {
     /// }));
     /// ```
     pub fn add_affected_path<TStr: Into<String>>(mut self, affected_path: TStr) -> Self {
+        self.extensions.extensions.remove("affectedPath");
         self.extensions.affected_path = Some(affected_path.into());
         self
     }
@@ -324,9 +328,9 @@ impl<'de> Deserialize<'de> for GraphQLErrorExtensions {
             where
                 A: de::MapAccess<'de>,
             {
-                let mut code = None;
-                let mut service_name = None;
-                let mut affected_path = None;
+                let mut code: Option<Value> = None;
+                let mut service_name: Option<Value> = None;
+                let mut affected_path: Option<Value> = None;
                 let mut extensions = BTreeMap::new();
 
                 while let Some(key) = map.next_key::<String>()? {
@@ -347,7 +351,7 @@ impl<'de> Deserialize<'de> for GraphQLErrorExtensions {
                             if affected_path.is_some() {
                                 return Err(de::Error::duplicate_field("affectedPath"));
                             }
-                            affected_path = map.next_value()?;
+                            affected_path = Some(map.next_value()?);
                         }
                         other_key => {
                             let value: Value = map.next_value()?;
@@ -356,6 +360,22 @@ impl<'de> Deserialize<'de> for GraphQLErrorExtensions {
                     }
                 }
 
+                // The values of extensions may be of any type,
+                // the ones that are not strings are kept as they are.
+                let mut string_or_extension = |key: &str, value: Option<Value>| {
+                    let value = value.filter(|value| !value.is_null())?;
+                    match value.as_str() {
+                        Some(value) => Some(value.to_string()),
+                        None => {
+                            extensions.insert(key.to_string(), value);
+                            None
+                        }
+                    }
+                };
+                let code = string_or_extension("code", code);
+                let service_name = string_or_extension("service", service_name);
+                let affected_path = string_or_extension("affectedPath", affected_path);
+
                 Ok(GraphQLErrorExtensions {
                     code,
                     service_name,
-- 
2.43.0


From dc14225fc780d8ab40f095ae6fbadc08e3c6981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 51/62] fix: accept subgraph response extensions whose keys
 have escape sequences

---
 .../src/executor/extensions/aggregator.rs     | 41 +++++++++++++------
 .../executor/response/subgraph_response.rs    | 24 +++++++++--
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/bin/router/src/executor/extensions/aggregator.rs b/bin/router/src/executor/extensions/aggregator.rs
index 8e50109..01afab5 100644
--- a/bin/router/src/executor/extensions/aggregator.rs
+++ b/bin/router/src/executor/extensions/aggregator.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{borrow::Cow, collections::HashMap};
 
 use ahash::{HashMap as AHashMap, HashMapExt};
 use sonic_rs::Value as SonicValue;
@@ -10,7 +10,7 @@ use super::plan::{ExtensionsMergeStrategy, ExtensionsPlan};
 const RESERVED_KEY: &str = "queryPlan";
 
 pub struct ExtensionsAggregator<'a> {
-    entries: AHashMap<&'a str, (ExtensionsMergeStrategy, Vec<Value<'a>>)>,
+    entries: AHashMap<Cow<'a, str>, (ExtensionsMergeStrategy, Vec<Value<'a>>)>,
 }
 
 impl Default for ExtensionsAggregator<'_> {
@@ -22,8 +22,8 @@ impl Default for ExtensionsAggregator<'_> {
 }
 
 impl<'a> ExtensionsAggregator<'a> {
-    fn write(&mut self, key: &'a str, value: Value<'a>, strategy: ExtensionsMergeStrategy) {
-        match self.entries.get_mut(key) {
+    fn write(&mut self, key: Cow<'a, str>, value: Value<'a>, strategy: ExtensionsMergeStrategy) {
+        match self.entries.get_mut(&key) {
             None => {
                 self.entries.insert(key, (strategy, vec![value]));
             }
@@ -75,20 +75,35 @@ pub fn apply_subgraph_extensions<'a>(
         return;
     };
 
-    let Value::Object(entries) = subgraph_extensions else {
-        return;
+    let is_propagated = |key: &str| {
+        key != RESERVED_KEY
+            && propagate
+                .allow
+                .as_ref()
+                .is_none_or(|allow| allow.contains(key))
     };
 
-    for (key, val) in entries {
-        if *key == RESERVED_KEY {
-            continue;
+    match subgraph_extensions {
+        Value::Object(entries) => {
+            for (key, val) in entries {
+                if is_propagated(key) {
+                    agg.write(Cow::Borrowed(*key), val.clone(), propagate.strategy);
+                }
+            }
         }
-        if let Some(ref allow) = propagate.allow {
-            if !allow.contains(*key) {
-                continue;
+        // Extensions with keys that could not be borrowed from the response.
+        Value::RawJson(raw) => {
+            for entry in sonic_rs::to_object_iter(raw.as_ref()) {
+                let Ok((key, val)) = entry else {
+                    return;
+                };
+                if is_propagated(&key) {
+                    let val = Value::RawJson(Cow::Owned(val.as_raw_str().to_string()));
+                    agg.write(Cow::Owned(key.into()), val, propagate.strategy);
+                }
             }
         }
-        agg.write(key, val.clone(), propagate.strategy);
+        _ => {}
     }
 }
 
diff --git a/bin/router/src/executor/response/subgraph_response.rs b/bin/router/src/executor/response/subgraph_response.rs
index 596b81d..f8d622a 100644
--- a/bin/router/src/executor/response/subgraph_response.rs
+++ b/bin/router/src/executor/response/subgraph_response.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::borrow::Cow;
 use std::sync::Arc;
 
 use crate::query_planner::planner::plan_nodes::CustomScalarPaths;
@@ -95,8 +96,8 @@ impl<'a, 'de> Visitor<'de> for SubgraphResponseVisitor<'a> {
         let mut errors = None;
         let mut extensions = None;
 
-        while let Some(key) = map.next_key::<&str>()? {
-            match key {
+        while let Some(key) = map.next_key::<Cow<'de, str>>()? {
+            match key.as_ref() {
                 "data" => {
                     if data.is_some() {
                         return Err(de::Error::duplicate_field("data"));
@@ -115,8 +116,8 @@ impl<'a, 'de> Visitor<'de> for SubgraphResponseVisitor<'a> {
                     if extensions.is_some() {
                         return Err(de::Error::duplicate_field("extensions"));
                     }
-                    // Extensions intentionally stay on the structured path.
-                    extensions = Some(map.next_value()?);
+                    let raw: sonic_rs::LazyValue<'de> = map.next_value()?;
+                    extensions = Some(deserialize_extensions(raw.as_raw_cow())?);
                 }
                 _ => {
                     let _ = map.next_value::<de::IgnoredAny>()?;
@@ -135,6 +136,21 @@ impl<'a, 'de> Visitor<'de> for SubgraphResponseVisitor<'a> {
     }
 }
 
+/// Extensions stay on the structured path, except when their keys cannot be borrowed
+/// from the response (keys with escape sequences): those are kept as raw JSON.
+fn deserialize_extensions<'de, E>(raw: Cow<'de, str>) -> Result<Value<'de>, E>
+where
+    E: de::Error,
+{
+    if let Cow::Borrowed(raw) = raw {
+        if let Ok(extensions) = sonic_rs::from_str(raw) {
+            return Ok(extensions);
+        }
+    }
+    sonic_rs::from_str::<sonic_rs::Value>(&raw).map_err(E::custom)?;
+    Ok(Value::RawJson(raw))
+}
+
 #[derive(Clone, Copy)]
 struct ValueSeed<'a> {
     custom_scalar_paths: &'a CustomScalarPaths,
-- 
2.43.0


From 93bc2c8a1013dd8677ad0ed67dcff00c5842ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:18 +0000
Subject: [PATCH 52/62] fix: reload a supergraph file that is older than the
 loaded one

---
 bin/router/src/supergraph/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/supergraph/file.rs b/bin/router/src/supergraph/file.rs
index 0cd78ec..3b27210 100644
--- a/bin/router/src/supergraph/file.rs
+++ b/bin/router/src/supergraph/file.rs
@@ -28,7 +28,8 @@ impl SupergraphFileLoader {
         let current_time = file_metadata.modified()?;
         let mut modified_time = self.modified_time.write().await;
 
-        if modified_time.is_none() || current_time > modified_time.unwrap() {
+        // A replaced file may also be older than the one it replaces (a rollback, for example).
+        if *modified_time != Some(current_time) {
             let content = fs::read_to_string(&self.file_path.absolute).await?;
             *modified_time = Some(current_time);
 
-- 
2.43.0


From 412cdf5cab1b199d431fc1022cc1e67cc54f0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:58 +0000
Subject: [PATCH 53/62] fix: do not remember the ETag of a supergraph whose
 transfer broke off

---
 lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs | 5 +++--
 lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs  | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
index 0c39fd4..af7b3f9 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/async_fetcher.rs
@@ -78,12 +78,13 @@ impl SupergraphFetcher<SupergraphFetcherAsyncState> {
                 return Ok(None);
             }
 
-            let etag = last_resp.headers().get("etag");
-            self.update_latest_etag(etag).await;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .await
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // Only a supergraph that was received completely is not fetched again.
+            self.update_latest_etag(etag.as_ref()).await;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
diff --git a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
index 57a572c..a956a5c 100644
--- a/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
+++ b/lib/hive-console-sdk/src/supergraph_fetcher/sync_fetcher.rs
@@ -121,10 +121,12 @@ impl SupergraphFetcher<SupergraphFetcherSyncState> {
                 return Ok(None);
             }
 
-            self.update_latest_etag(last_resp.headers().get("etag"))?;
+            let etag = last_resp.headers().get("etag").cloned();
             let text = last_resp
                 .text()
                 .map_err(SupergraphFetcherError::ResponseParse)?;
+            // Only a supergraph that was received completely is not fetched again.
+            self.update_latest_etag(etag.as_ref())?;
             Ok(Some(text))
         } else if let Some(error) = last_error {
             Err(error)
-- 
2.43.0


From a9b388914d3adcc4a6f69607ff69631fac7893bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:31 +0000
Subject: [PATCH 54/62] fix: let the subgraph request timeout cover the
 response body

---
 bin/router/src/executor/executors/http.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/executor/executors/http.rs b/bin/router/src/executor/executors/http.rs
index 83351d9..72263ba 100644
--- a/bin/router/src/executor/executors/http.rs
+++ b/bin/router/src/executor/executors/http.rs
@@ -242,9 +242,12 @@ async fn send_request<'a>(
         telemetry_context.inject_context_into_http_headers(req.headers_mut());
 
         let res_fut = http_client.request(req);
+        // The timeout covers the whole exchange: a subgraph that sends its head and then
+        // stalls has to be given up on just like one that does not answer at all.
+        let deadline = timeout.map(|duration| tokio::time::Instant::now() + duration);
 
-        let res = if let Some(timeout_duration) = timeout {
-            tokio::time::timeout(timeout_duration, res_fut).await?
+        let res = if let Some(deadline) = deadline {
+            tokio::time::timeout_at(deadline, res_fut).await?
         } else {
             res_fut.await
         }?;
@@ -262,7 +265,13 @@ async fn send_request<'a>(
 
         let (parts, body) = res.into_parts();
 
-        let body = match body.collect().await {
+        let body = if let Some(deadline) = deadline {
+            tokio::time::timeout_at(deadline, body.collect()).await?
+        } else {
+            body.collect().await
+        };
+
+        let body = match body {
             Ok(body) => body.to_bytes(),
             Err(err) => {
                 return Err(SubgraphExecutorError::ResponseBodyReadFailure(
-- 
2.43.0


From 414f0e789bc1deacd06abd8f8c52c82a9bd31ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 55/62] fix: take a multipart boundary for one only at the
 start of a line

---
 bin/router/src/executor/executors/multipart_subscribe.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/executors/multipart_subscribe.rs b/bin/router/src/executor/executors/multipart_subscribe.rs
index 843a07b..a1ba904 100644
--- a/bin/router/src/executor/executors/multipart_subscribe.rs
+++ b/bin/router/src/executor/executors/multipart_subscribe.rs
@@ -153,8 +153,12 @@ fn find_next_part(
     let delimiter_b = delimiter.as_bytes();
     let end_marker_b = end_marker.as_bytes();
 
+    // a delimiter is only one at the start of a line, the same bytes within a line are content
     let find_bytes = |haystack: &[u8], needle: &[u8]| -> Option<usize> {
-        haystack.windows(needle.len()).position(|w| w == needle)
+        haystack
+            .windows(needle.len())
+            .enumerate()
+            .position(|(i, w)| w == needle && (i == 0 || haystack[i - 1] == b'\n'))
     };
 
     if !started {
-- 
2.43.0


From fac410f79bcfeadce2023a608f248e1acef785d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 56/62] fix: keep objects sorted when a fetch rewrite renames a
 key

---
 bin/router/src/executor/execution/rewrites.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/router/src/executor/execution/rewrites.rs b/bin/router/src/executor/execution/rewrites.rs
index 139463c..f96d4f6 100644
--- a/bin/router/src/executor/execution/rewrites.rs
+++ b/bin/router/src/executor/execution/rewrites.rs
@@ -82,7 +82,9 @@ impl RewriteApplier for KeyRenamer {
                             if let Some((key, _)) =
                                 obj.iter_mut().find(|(key, _)| key == field_name)
                             {
-                                *key = self.rename_key_to.as_str()
+                                *key = self.rename_key_to.as_str();
+                                // objects are kept sorted by their keys
+                                obj.sort_by_key(|(key, _)| *key);
                             }
                         }
                     } else if let Some(data) = obj.iter_mut().find(|r| r.0 == field_name) {
-- 
2.43.0


From d6caab6b7a3b66d99444bea1a83133d7518b81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 57/62] fix: prefix every line of a multi-line payload in a
 server-sent event

---
 bin/router/src/pipeline/sse.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/router/src/pipeline/sse.rs b/bin/router/src/pipeline/sse.rs
index 9c9acb7..e327ed5 100644
--- a/bin/router/src/pipeline/sse.rs
+++ b/bin/router/src/pipeline/sse.rs
@@ -21,9 +21,15 @@ pub fn create_stream(
                              match std::str::from_utf8(&resp) {
                                 Ok(json_str) => {
                                     let mut sse_event = ntex::util::BytesMut::with_capacity(json_str.len() + 25);
-                                    sse_event.put_slice(b"event: next\ndata: ");
-                                    sse_event.put_slice(json_str.as_bytes());
-                                    sse_event.put_slice(b"\n\n");
+                                    sse_event.put_slice(b"event: next\n");
+                                    // a custom scalar is passed on as it was written and may
+                                    // span lines, each of which has to be a data line
+                                    for line in json_str.split(['\n', '\r']) {
+                                        sse_event.put_slice(b"data: ");
+                                        sse_event.put_slice(line.as_bytes());
+                                        sse_event.put_slice(b"\n");
+                                    }
+                                    sse_event.put_slice(b"\n");
                                     yield Ok(sse_event.freeze());
                                 }
                                 Err(e) => {
-- 
2.43.0


From b76297a851077a8ad4d8fd1d1df3a25a7aa88246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 58/62] fix: mask the errors of subscription events and apply
 the subscription's output rewrites

---
 bin/router/src/executor/execution/plan.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index 6a04ff1..449fbf8 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -354,6 +354,7 @@ pub async fn execute_query_plan<'exec>(
         // clone all necessary data from the context for usage in the stream.
         // the stream will move all of these values inside its closure
         let subgraph_name: String = fetch_node.service_name.clone();
+        let output_rewrites = fetch_node.output_rewrites.clone();
         let client_method = opts.client_request.method.clone();
         let client_url = opts.client_request.url.clone();
         let client_headers = opts.client_request.headers.clone();
@@ -369,7 +370,7 @@ pub async fn execute_query_plan<'exec>(
 
         let body_stream = Box::pin(async_stream::stream! {
             while let Some(stream_result) = response_stream.next().await {
-                let response = match stream_result.with_plan_context(LazyPlanContext {
+                let mut response = match stream_result.with_plan_context(LazyPlanContext {
                                 subgraph_name: || Some(subgraph_name.to_string()),
                                 affected_path: || None,
                             }) {
@@ -394,7 +395,17 @@ pub async fn execute_query_plan<'exec>(
                 };
                 let mut initial_errors = opts.initial_errors.clone();
                 if let Some(new_errors) = response.errors {
-                    initial_errors.extend(new_errors);
+                    initial_errors.extend(
+                        new_errors
+                            .into_iter()
+                            .map(|error| error.add_subgraph_name(&subgraph_name)),
+                    );
+                }
+                for output_rewrite in output_rewrites.iter().flatten() {
+                    output_rewrite.rewrite(
+                        &opts.introspection_context.metadata.possible_types,
+                        &mut response.data,
+                    );
                 }
                 let opts = QueryPlanExecutionOpts {
                     query_plan: &query_plan,
-- 
2.43.0


From 0160702ae7e8fce0a8e05cff04ce49b74feb50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:28 +0000
Subject: [PATCH 59/62] fix: close the upstream of a subscription when its last
 client leaves, not at the next event

---
 bin/router/src/pipeline/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index d9be94e..bdd06a6 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -666,6 +666,8 @@ pub async fn execute_planned_request<'exec>(
                                 None => break,
                             }
                         }
+                        // all receivers gone, do not hold on to an upstream that stays silent
+                        _ = producer_handle.sender().closed() => break,
                         _ = supergraph.snapshot.retired() => {
                             // the supergraph this subscription was selected from has been
                             // retired (configured reload, or the owning plugin dropped/replaced
-- 
2.43.0


From fb01ef270ff53331f1f1b5fe7ad20e941bac4b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:28 +0000
Subject: [PATCH 60/62] fix: do not keep a deduplicated subscription running
 after its clients have left

---
 bin/router/src/pipeline/mod.rs              | 10 +++++++--
 bin/router/src/pipeline/websocket_server.rs | 10 +++++++--
 bin/router/src/shared_state.rs              | 23 ++++++++++++++++++++-
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/bin/router/src/pipeline/mod.rs b/bin/router/src/pipeline/mod.rs
index bdd06a6..8036d7d 100644
--- a/bin/router/src/pipeline/mod.rs
+++ b/bin/router/src/pipeline/mod.rs
@@ -493,11 +493,17 @@ pub async fn graphql_request_handler(
         };
 
         let shared_response = if let Some(fp) = fingerprint {
+            let mut leader_receiver = None;
             let (shared_response, _role) = if is_subscription {
+                let leader_receiver = &mut leader_receiver;
                 shared_state
                     .in_flight_requests
                     .claim(fp)
-                    .get_or_try_init_with_guard(|guard| exec(Some(guard)))
+                    .get_or_try_init_with_guard(|guard| async move {
+                        let mut response = exec(Some(guard)).await?;
+                        *leader_receiver = response.take_receiver();
+                        Ok::<_, PipelineError>(response)
+                    })
                     .await?
             } else {
                 shared_state
@@ -506,7 +512,7 @@ pub async fn graphql_request_handler(
                     .get_or_try_init(|| exec(None))
                     .await?
             };
-            Arc::unwrap_or_clone(shared_response)
+            Arc::unwrap_or_clone(shared_response).with_receiver(leader_receiver)
         } else {
             exec(None).await?
         };
diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index bf72440..91d1995 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -622,11 +622,17 @@ async fn handle_text_frame(
                   );
 
                   let shared_response = if let Some(fp) = fingerprint {
+                      let mut leader_receiver = None;
                       let result = if is_subscription {
+                          let leader_receiver = &mut leader_receiver;
                           shared_state
                               .in_flight_requests
                               .claim(fp)
-                              .get_or_try_init_with_guard(|guard| exec(Some(guard)))
+                              .get_or_try_init_with_guard(|guard| async move {
+                                  let mut response = exec(Some(guard)).await?;
+                                  *leader_receiver = response.take_receiver();
+                                  Ok::<_, PipelineError>(response)
+                              })
                               .await
                       } else {
                           shared_state
@@ -645,7 +651,7 @@ async fn handle_text_frame(
                           },
                           Err(err) => return Some(err.into_server_message(&id, shared_state)),
                       };
-                      Arc::unwrap_or_clone(shared_response)
+                      Arc::unwrap_or_clone(shared_response).with_receiver(leader_receiver)
                   } else {
                       match exec(None).await {
                           Ok(result) => result,
diff --git a/bin/router/src/shared_state.rs b/bin/router/src/shared_state.rs
index 7c031f4..0b044f2 100644
--- a/bin/router/src/shared_state.rs
+++ b/bin/router/src/shared_state.rs
@@ -106,6 +106,25 @@ impl SharedRouterResponse {
             SharedRouterResponse::Stream(resp) => resp.error_count,
         }
     }
+    /// Takes the leader's receiver out of a streaming response.
+    ///
+    /// A deduplicated response is kept for as long as its upstream runs, so a receiver left in
+    /// it would count as a listener that never leaves and keep the upstream running forever.
+    pub fn take_receiver(&mut self) -> Option<StreamReceiver> {
+        match self {
+            SharedRouterResponse::Single(_) => None,
+            SharedRouterResponse::Stream(stream) => stream.receiver.take(),
+        }
+    }
+
+    /// Gives the leader's receiver, see [`take_receiver`](Self::take_receiver), back.
+    pub fn with_receiver(mut self, receiver: Option<StreamReceiver>) -> Self {
+        if let SharedRouterResponse::Stream(stream) = &mut self {
+            stream.receiver = receiver;
+        }
+        self
+    }
+
     pub fn into_response(
         self,
         response_mode: &ResponseMode,
@@ -151,6 +170,8 @@ impl From<SharedRouterSingleResponse> for web::HttpResponse {
     }
 }
 
+pub type StreamReceiver = tokio::sync::broadcast::Receiver<SubscriptionEvent>;
+
 // status is always 200 for streaming responses, errors are sent through the stream.
 // stream content type is not included because we can deduplicate subscriptions across
 // different content types, the response format is decided when converting to response
@@ -161,7 +182,7 @@ pub struct SharedRouterStreamResponse {
     // the leader gets the receiver that was subscribed before the pump was spawned, so
     // there is no window where the channel has zero receivers and events can be lost.
     // joiners get None and subscribe via body.subscribe() when consumed.
-    pub receiver: Option<tokio::sync::broadcast::Receiver<SubscriptionEvent>>,
+    pub receiver: Option<StreamReceiver>,
 }
 
 impl Clone for SharedRouterStreamResponse {
-- 
2.43.0


From d5b8b7ac6a9ca2e2ad4efed1138bd7dd27103d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:28 +0000
Subject: [PATCH 61/62] fix: let a WebSocket client complete an operation that
 is still starting, and end a failed one once

---
 bin/router/src/pipeline/websocket_server.rs | 36 ++++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/bin/router/src/pipeline/websocket_server.rs b/bin/router/src/pipeline/websocket_server.rs
index 91d1995..1740366 100644
--- a/bin/router/src/pipeline/websocket_server.rs
+++ b/bin/router/src/pipeline/websocket_server.rs
@@ -213,10 +213,16 @@ async fn ws_service(
 struct SubscriptionGuard {
     state: WsStateRef,
     id: String,
+    // the only strong sender is the one in the state, so once it is gone the id
+    // may already belong to another operation that must not be touched
+    cancel: mpsc::WeakSender<()>,
 }
 
 impl Drop for SubscriptionGuard {
     fn drop(&mut self) {
+        if self.cancel.upgrade().is_none() {
+            return;
+        }
         self.state.borrow_mut().subscriptions.remove(&self.id);
         trace!(target: targets::WEBSOCKET_SERVER, id = %self.id, "Subscription removed from active subscriptions");
     }
@@ -300,6 +306,19 @@ async fn handle_text_frame(
                 return Some(CloseCode::SubscriberAlreadyExists(id).into());
             }
 
+            // the operation is known by its id from the beginning, and not only once its stream
+            // is there, so that the client can complete it (or disconnect) while it is starting
+            let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
+            let guard = SubscriptionGuard {
+                state: state.clone(),
+                id: id.clone(),
+                cancel: cancel_tx.downgrade(),
+            };
+            state
+                .borrow_mut()
+                .subscriptions
+                .insert(id.clone(), cancel_tx);
+
             let started_at = Instant::now();
             let operation_span = GraphQLOperationSpan::new();
             operation_span.record_hive_target(
@@ -706,18 +725,6 @@ async fn handle_text_frame(
                           Some(ServerMessage::complete(&id))
                       }
                       SharedRouterResponse::Stream(response) => {
-                          let (cancel_tx, mut cancel_rx) = mpsc::channel::<()>(1);
-
-                          state
-                              .borrow_mut()
-                              .subscriptions
-                              .insert(id.clone(), cancel_tx);
-
-                          let guard = SubscriptionGuard {
-                              state: state.clone(),
-                              id: id.clone(),
-                          };
-
                           let mut receiver = response
                               .receiver
                               .unwrap_or_else(|| response.body.subscribe());
@@ -737,6 +744,7 @@ async fn handle_text_frame(
                               let _guard = guard;
                               let mut client_op_guard = client_op_guard;
                               let mut cancelled = false;
+                              let mut failed = false;
 
                               loop {
                                   tokio::select! {
@@ -749,6 +757,8 @@ async fn handle_text_frame(
                                               Ok(SubscriptionEvent::Error(errors)) => {
                                                   client_op_guard.set_end_reason(SubscriptionEndReason::Error);
                                                   let _ = sink.send(ServerMessage::error(&id_for_loop, &errors)).await;
+                                                  // an error ends the operation, nothing may follow it
+                                                  failed = true;
                                                   break;
                                               }
                                               Err(tokio::sync::broadcast::error::RecvError::Lagged(n)) => {
@@ -774,6 +784,8 @@ async fn handle_text_frame(
 
                               if cancelled {
                                   trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription cancelled");
+                              } else if failed {
+                                  trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription failed");
                               } else {
                                   trace!(target: targets::WEBSOCKET_SERVER, id = %id_for_loop, "Subscription completed");
                                   let _ = sink.send(ServerMessage::complete(&id_for_loop)).await;
-- 
2.43.0


From dcf3c8e5eaa37066335ea0c8a62b79106ed38282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:19 +0000
Subject: [PATCH 62/62] fix: keep the router's own errors in subscription
 events apart from the subgraph's

---
 bin/router/src/executor/execution/plan.rs     | 12 ++++++-----
 .../src/executor/executors/http_callback.rs   | 20 +++++++++++++++++--
 .../executor/executors/websocket_client.rs    |  1 +
 .../executor/response/subgraph_response.rs    |  3 +++
 bin/router/src/schema_state.rs                |  6 +++---
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/bin/router/src/executor/execution/plan.rs b/bin/router/src/executor/execution/plan.rs
index 449fbf8..f45f874 100644
--- a/bin/router/src/executor/execution/plan.rs
+++ b/bin/router/src/executor/execution/plan.rs
@@ -395,11 +395,13 @@ pub async fn execute_query_plan<'exec>(
                 };
                 let mut initial_errors = opts.initial_errors.clone();
                 if let Some(new_errors) = response.errors {
-                    initial_errors.extend(
-                        new_errors
-                            .into_iter()
-                            .map(|error| error.add_subgraph_name(&subgraph_name)),
-                    );
+                    let errors_by_router = response.errors_by_router;
+                    initial_errors.extend(new_errors.into_iter().map(|error| {
+                        if errors_by_router {
+                            return error;
+                        }
+                        error.add_subgraph_name(&subgraph_name)
+                    }));
                 }
                 for output_rewrite in output_rewrites.iter().flatten() {
                     output_rewrite.rewrite(
diff --git a/bin/router/src/executor/executors/http_callback.rs b/bin/router/src/executor/executors/http_callback.rs
index e6cfcd6..684567e 100644
--- a/bin/router/src/executor/executors/http_callback.rs
+++ b/bin/router/src/executor/executors/http_callback.rs
@@ -51,8 +51,16 @@ impl CallbackSubscription {
 
 #[derive(Debug)]
 pub enum CallbackMessage {
-    Next { payload: Bytes },
-    Complete { errors: Option<Vec<GraphQLError>> },
+    Next {
+        payload: Bytes,
+    },
+    Complete {
+        errors: Option<Vec<GraphQLError>>,
+    },
+    /// The router gave the subscription up, with an error of its own.
+    Gone {
+        error: GraphQLError,
+    },
 }
 
 pub type CallbackSubscriptionsMap = Arc<DashMap<String, CallbackSubscription>>;
@@ -309,6 +317,14 @@ impl SubgraphExecutor for HttpCallbackSubgraphExecutor {
                             }
                         }
                     }
+                    CallbackMessage::Gone { error } => {
+                        yield Ok(SubgraphResponse {
+                            errors: Some(vec![error]),
+                            errors_by_router: true,
+                            ..Default::default()
+                        });
+                        break;
+                    }
                     CallbackMessage::Complete { errors } => {
                         trace!(
                             target: targets::HTTP_CALLBACK,
diff --git a/bin/router/src/executor/executors/websocket_client.rs b/bin/router/src/executor/executors/websocket_client.rs
index e9382dc..3f73c46 100644
--- a/bin/router/src/executor/executors/websocket_client.rs
+++ b/bin/router/src/executor/executors/websocket_client.rs
@@ -91,6 +91,7 @@ impl From<WsClientError> for SubgraphResponse<'static> {
                 err.to_string(),
                 err.error_code(),
             )]),
+            errors_by_router: true,
             ..Default::default()
         }
     }
diff --git a/bin/router/src/executor/response/subgraph_response.rs b/bin/router/src/executor/response/subgraph_response.rs
index f8d622a..868d1d9 100644
--- a/bin/router/src/executor/response/subgraph_response.rs
+++ b/bin/router/src/executor/response/subgraph_response.rs
@@ -20,6 +20,8 @@ use crate::executor::{
 pub struct SubgraphResponse<'a> {
     pub data: Value<'a>,
     pub errors: Option<Vec<GraphQLError>>,
+    /// Whether the errors were made by the router and did not come from the subgraph.
+    pub errors_by_router: bool,
     pub extensions: Option<Value<'a>>,
     pub headers: Option<Arc<HeaderMap>>,
     pub bytes: Option<Bytes>,
@@ -128,6 +130,7 @@ impl<'a, 'de> Visitor<'de> for SubgraphResponseVisitor<'a> {
         Ok(SubgraphResponse {
             data: data.unwrap_or(Value::Null),
             errors,
+            errors_by_router: false,
             extensions,
             headers: None,
             bytes: None,
diff --git a/bin/router/src/schema_state.rs b/bin/router/src/schema_state.rs
index c85be67..753ecb4 100644
--- a/bin/router/src/schema_state.rs
+++ b/bin/router/src/schema_state.rs
@@ -1043,11 +1043,11 @@ impl BackgroundTask for CallbackHeartbeatEnforcerTask {
                 if let Some((_, sub)) = self.callback_subscriptions.remove(&id) {
                     // we dont care about the result of this send, if it fails it means the client
                     // is already gone or too slow, either way we just terminate the subscription
-                    let _ = sub.sender.try_send(CallbackMessage::Complete {
-                        errors: Some(vec![GraphQLError::from_message_and_extensions(
+                    let _ = sub.sender.try_send(CallbackMessage::Gone {
+                        error: GraphQLError::from_message_and_extensions(
                             "Subgraph gone due to heartbeat timeout".to_string(),
                             GraphQLErrorExtensions::new_from_code("SUBGRAPH_GONE"),
-                        )]),
+                        ),
                     });
                 }
             }
-- 
2.43.0

