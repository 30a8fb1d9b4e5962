From e4e5cb2de1944e8c3ebf86d64b65078b69e86cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:03 +0000
Subject: [PATCH 01/62] fix: read all integer and string literal forms of
 attribute values

Digit separators, radix prefixes and type suffixes, raw strings, and
comments next to the value made valid ink! attribute values be reported
as invalid.
---
 crates/ir/src/attrs/meta/value.rs | 55 ++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/crates/ir/src/attrs/meta/value.rs b/crates/ir/src/attrs/meta/value.rs
index 12fe0ec..4b4155f 100644
--- a/crates/ir/src/attrs/meta/value.rs
+++ b/crates/ir/src/attrs/meta/value.rs
@@ -61,7 +61,17 @@ impl MetaValue {
             // Ref: <https://doc.rust-lang.org/reference/expressions/path-expr.html>.
             // NOTE: `_` is already handled as a token above, so underscore expressions are ignored.
             // Ref: <https://doc.rust-lang.org/reference/expressions/underscore-expr.html>.
-            let arg_text = elems.iter().map(ToString::to_string).join("");
+            // NOTE: Trivia (e.g. comments) is not part of the value.
+            let arg_text = elems
+                .iter()
+                .map(|elem| {
+                    if elem.kind().is_trivia() {
+                        String::from(" ")
+                    } else {
+                        elem.to_string()
+                    }
+                })
+                .join("");
             if let Some(expr) = ra_ap_syntax::hacks::parse_expr_from_str(&arg_text) {
                 if matches!(expr, ast::Expr::Literal(_) | ast::Expr::PathExpr(_)) {
                     return Some(Self {
@@ -143,32 +153,31 @@ impl MetaValue {
         self.kind() == SyntaxKind::AT
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u16`.
+    /// Converts the value if it's an integer literal into a `u16`.
     pub fn as_u16(&self) -> Option<u16> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a `u32`.
+    /// Converts the value if it's an integer literal into a `u32`.
     pub fn as_u32(&self) -> Option<u32> {
         self.as_int()
     }
 
-    /// Converts the value if it's an integer literal (decimal or hexadecimal) into a integer.
+    /// Converts the value if it's an integer literal into a integer.
     pub fn as_int<T>(&self) -> Option<T>
     where
         T: IsIntId,
     {
-        if self.kind() == SyntaxKind::INT_NUMBER {
-            let value = self.to_string();
-            if value.starts_with("0x") {
-                // Parse as hex.
-                T::from_str_radix(value.strip_prefix("0x").unwrap(), 16).ok()
-            } else {
-                // Parse as decimal.
-                value.parse::<T>().ok()
-            }
-        } else {
-            None
+        match self.expr.as_ref() {
+            Some(ast::Expr::Literal(lit)) => match lit.kind() {
+                // Handles all integer literal formats (i.e. radix prefixes, digit separators and type suffixes).
+                ast::LiteralKind::IntNumber(int_number) => int_number
+                    .value()
+                    .ok()
+                    .and_then(|value| T::from_str_radix(&value.to_string(), 10).ok()),
+                _ => None,
+            },
+            _ => None,
         }
     }
 
@@ -183,14 +192,14 @@ impl MetaValue {
 
     /// Converts the value if it's a string literal into a `String`.
     pub fn as_string(&self) -> Option<String> {
-        (self.kind() == SyntaxKind::STRING).then_some(
-            // Parses string value (removes escaped leading and trailing quotes).
-            self.to_string()
-                .chars()
-                .skip_while(|char| *char == '\"')
-                .take_while(|char| *char != '\"')
-                .join(""),
-        )
+        match self.expr.as_ref() {
+            Some(ast::Expr::Literal(lit)) => match lit.kind() {
+                // Handles both raw and escaped string literals.
+                ast::LiteralKind::String(string) => string.value().map(|value| value.into_owned()),
+                _ => None,
+            },
+            _ => None,
+        }
     }
 
     /// Converts the value if it's a path expression into a `Path` with an inaccurate text range.
-- 
2.43.0


From 1d8d9a9cabe79833b39568cbadbc0ea61e0f96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:03 +0000
Subject: [PATCH 02/62] fix: ignore all trivia when comparing signatures and
 paths

---
 crates/analyzer/src/analysis/utils.rs | 8 +++++---
 crates/ir/src/tree/ast_ext.rs         | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..fd41d0c 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -2053,9 +2053,11 @@ where
 /// Compares two node for equality while ignoring trivia (i.e. whitespace and comments).
 pub fn is_trivia_insensitive_eq(a: &SyntaxNode, b: &SyntaxNode) -> bool {
     let strip_trivia = |node: &SyntaxNode| {
-        node.children_with_tokens()
-            .filter(|node| !node.kind().is_trivia())
-            .join("")
+        node.descendants_with_tokens()
+            .filter_map(|elem| elem.into_token())
+            .filter(|token| !token.kind().is_trivia())
+            .map(|token| token.text().to_owned())
+            .collect::<Vec<_>>()
     };
     strip_trivia(a) == strip_trivia(b)
 }
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..eb1b9d6 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -398,7 +398,7 @@ fn flatten_use_tree(use_tree: &ast::UseTree) -> Vec<(String, Option<String>)> {
 }
 
 fn remove_whitespace(text: &str) -> String {
-    text.replace(' ', "")
+    text.split_whitespace().collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6f297f9a5700f5f61838ab3e3be20352e5b9ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:03 +0000
Subject: [PATCH 03/62] fix: consider all derive attributes when checking for
 SCALE codec traits

---
 .../src/analysis/diagnostics/common.rs        | 78 +++++++------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 31db307..3db7770 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1998,20 +1998,23 @@ pub fn ensure_impl_scale_codec_traits(
         .as_ref()
         .map(utils::token_tree_to_non_delimited_meta_string);
 
-    // Extracts derive item paths from both the standalone and conditional derive attributes.
-    let standalone_derived_items = standalone_derive_meta.as_deref().map(meta_to_path_list);
-    let conditional_derived_items = adt.attrs().find_map(|attr| {
-        if attr
-            .path()
-            .is_some_and(|path| path.to_string().trim() == "cfg_attr")
-        {
-            attr.token_tree().map(|token_tree| {
-                token_tree
-                    .syntax()
-                    .children()
-                    .filter_map(|node| {
-                        let is_after_derive = || {
-                            node.first_token()
+    // Extracts derive item paths from all standalone and conditional derive attributes.
+    let derived_items: Vec<_> = adt
+        .attrs()
+        .filter_map(|attr| {
+            let path = attr.path()?.to_string();
+            let token_tree = attr.token_tree()?;
+            match path.trim() {
+                "derive" => Some(vec![token_tree]),
+                "cfg_attr" => Some(
+                    token_tree
+                        .syntax()
+                        .children()
+                        .filter_map(ast::TokenTree::cast)
+                        .filter(|node| {
+                            // Only includes token trees that are arguments of `derive`.
+                            node.syntax()
+                                .first_token()
                                 .and_then(|token| {
                                     ink_analyzer_ir::closest_non_trivia_token(
                                         &token,
@@ -2019,31 +2022,17 @@ pub fn ensure_impl_scale_codec_traits(
                                     )
                                 })
                                 .is_some_and(|token| token.text() == "derive")
-                        };
-                        if ast::TokenTree::can_cast(node.kind()) && is_after_derive() {
-                            ast::TokenTree::cast(node)
-                                .as_ref()
-                                .map(utils::token_tree_to_non_delimited_meta_string)
-                        } else {
-                            None
-                        }
-                    })
-                    .flat_map(|meta| meta_to_path_list(&meta))
-                    .collect::<Vec<_>>()
-            })
-        } else {
-            None
-        }
-    });
-    let derived_items = match (standalone_derived_items, conditional_derived_items) {
-        (Some(standalone), Some(conditional)) => {
-            let mut items = Vec::with_capacity(standalone.len() + conditional.len());
-            items.extend(standalone);
-            items.extend(conditional);
-            Some(items)
-        }
-        (standalone_option, conditional_option) => standalone_option.or(conditional_option),
-    };
+                        })
+                        .collect(),
+                ),
+                _ => None,
+            }
+        })
+        .flatten()
+        .flat_map(|token_tree| {
+            meta_to_path_list(&utils::token_tree_to_non_delimited_meta_string(&token_tree))
+        })
+        .collect();
 
     // Finds unimplemented SCALE codec traits.
     let unimplemented_traits: Vec<_> = ([
@@ -2074,15 +2063,8 @@ pub fn ensure_impl_scale_codec_traits(
                     .as_ref()
                     .is_some_and(|attr| attr.args().iter().any(|arg| *arg.kind() == arg_kind));
             let is_derived = || {
-                derived_items.as_ref().is_some_and(|item_paths| {
-                    item_paths.iter().any(|path| {
-                        resolution::is_external_crate_item(
-                            trait_name,
-                            path,
-                            qualifiers,
-                            adt.syntax(),
-                        )
-                    })
+                derived_items.iter().any(|path| {
+                    resolution::is_external_crate_item(trait_name, path, qualifiers, adt.syntax())
                 })
             };
             // Finds trait implementation for the custom type (if any).
-- 
2.43.0


From e5b4630e1ae3fb0eeed4cb67bb528896446f88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 04/62] fix: keep existing derives when adding missing SCALE
 codec traits to scale_derive

---
 .../src/analysis/diagnostics/common.rs        | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 3db7770..e32fe6a 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1991,13 +1991,6 @@ pub fn ensure_impl_scale_codec_traits(
             .collect::<Vec<_>>()
     };
 
-    // Standalone derive attribute meta item string (if any).
-    let standalone_derive_meta = standalone_derive_attr
-        .as_ref()
-        .and_then(ast::Attr::token_tree)
-        .as_ref()
-        .map(utils::token_tree_to_non_delimited_meta_string);
-
     // Extracts derive item paths from all standalone and conditional derive attributes.
     let derived_items: Vec<_> = adt
         .attrs()
@@ -2135,8 +2128,13 @@ pub fn ensure_impl_scale_codec_traits(
         let (insert_text, insert_range, insert_snippet) = target_attr
             .as_ref()
             .map(|attr| {
-                let meta_prefix = if version == Version::V4 {
-                    standalone_derive_meta.as_ref().map(|meta| {
+                // Keeps the existing derive items (if any).
+                let meta_prefix = attr
+                    .token_tree()
+                    .as_ref()
+                    .map(utils::token_tree_to_non_delimited_meta_string)
+                    .filter(|meta| !meta.trim().is_empty())
+                    .map(|meta| {
                         format!(
                             "{meta}{}",
                             if meta.trim_end().ends_with(',') {
@@ -2145,10 +2143,7 @@ pub fn ensure_impl_scale_codec_traits(
                                 ", "
                             }
                         )
-                    })
-                } else {
-                    None
-                };
+                    });
                 (
                     format!(
                         "#[{attr_path}({}{trait_paths_plain})]",
-- 
2.43.0


From 3356d635889c31f1506c8e118f03629f6c940193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:02 +0000
Subject: [PATCH 05/62] fix: report scale_derive and namespace attributes on
 the wrong kind of item

---
 .../src/analysis/diagnostics/common.rs        | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index e32fe6a..3cac6a8 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -67,10 +67,48 @@ pub fn run_generic_diagnostics<T: InkEntity>(
             // Ensures that no conflicting ink! attributes and/or arguments,
             // see `validate_entity_attributes` doc.
             validate_entity_attributes(results, &attrs, version);
+
+            // Ensures that ink! attributes which don't define their own ink! entity
+            // are applied to the right kind of item,
+            // see `ensure_valid_annotated_item_kind` doc.
+            ensure_valid_annotated_item_kind(results, &attrs, &ink_parent);
         }
     }
 }
 
+/// Ensures that ink! attributes which don't define an ink! entity of their own
+/// (i.e. `scale_derive` and standalone `namespace`) are applied to the right kind of item.
+fn ensure_valid_annotated_item_kind(
+    results: &mut Vec<Diagnostic>,
+    attrs: &[InkAttribute],
+    item: &SyntaxNode,
+) {
+    for (idx, attr) in attrs.iter().enumerate() {
+        let expected_items = match attr.kind() {
+            InkAttributeKind::Macro(InkMacroKind::ScaleDerive)
+                if !ast::Adt::can_cast(item.kind()) =>
+            {
+                "an `enum`, `struct` or `union` item"
+            }
+            InkAttributeKind::Arg(InkArgKind::Namespace)
+                if idx == 0 && !ast::Impl::can_cast(item.kind()) =>
+            {
+                "an `impl` block"
+            }
+            _ => continue,
+        };
+        results.push(Diagnostic {
+            message: format!(
+                "`{}` can only be applied to {expected_items}.",
+                attr.syntax()
+            ),
+            range: attr.syntax().text_range(),
+            severity: Severity::Error,
+            quickfixes: Some(vec![Action::remove_attribute(attr)]),
+        });
+    }
+}
+
 /// Returns an error diagnostic for every instance of `__ink_` prefixed identifier found.
 ///
 /// Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/idents_lint.rs#L20>.
-- 
2.43.0


From 9ada1276713f2d018641cd5b2412e94426d5322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 06/62] fix: only use global trait paths in full when composing
 selectors

---
 crates/ir/src/selector.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/selector.rs b/crates/ir/src/selector.rs
index f49789c..10bb7d6 100644
--- a/crates/ir/src/selector.rs
+++ b/crates/ir/src/selector.rs
@@ -118,9 +118,11 @@ impl Selector {
         match callable.parent_impl_item()?.trait_()? {
             ast::Type::PathType(trait_path_type) => {
                 let trait_path = trait_path_type.path()?;
+                // Only paths with a leading `::` (i.e. global paths) are used in full.
                 let is_full_path = trait_path
-                    .qualifier()
-                    .is_some_and(|qualifier| qualifier.coloncolon_token().is_some());
+                    .segments()
+                    .next()
+                    .is_some_and(|segment| segment.coloncolon_token().is_some());
                 let trait_ident = if is_full_path {
                     let mut full_path = trait_path.to_string();
                     full_path.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 2500f573222b1126eb778a1f817c0781966ec9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 07/62] fix: check arguments of sibling ink! attribute macros
 against their own macro

---
 .../analyzer/src/analysis/diagnostics/common.rs   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 3cac6a8..9241adc 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1122,6 +1122,16 @@ fn validate_entity_attributes(
                 });
             } else {
                 // Handle argument level conflicts if the top level attribute kind doesn't conflict.
+                // NOTE: Arguments of an ink! attribute macro that's a valid sibling of a "primary"
+                // ink! attribute macro (e.g. `scale_derive` and `storage_item` in ink! v5)
+                // only have to be valid for their own ink! attribute macro.
+                let own_valid_sibling_args = match (primary_ink_attr_candidate.kind(), attr.kind())
+                {
+                    (InkAttributeKind::Macro(_), InkAttributeKind::Macro(_)) => {
+                        Some(utils::valid_sibling_ink_args(*attr.kind(), version))
+                    }
+                    _ => None,
+                };
                 for arg in attr.args() {
                     // Checks if this arg kind is the same as the one being used by the attribute,
                     // which is already known to not be conflicting (or at least not deserving of flagging)
@@ -1131,7 +1141,10 @@ fn validate_entity_attributes(
                     // Ignore arg if it's already been handled at attribute level or
                     // reported as deprecated.
                     if !is_attr_kind
-                        && !valid_sibling_args.contains(arg.kind())
+                        && !own_valid_sibling_args
+                            .as_ref()
+                            .unwrap_or(&valid_sibling_args)
+                            .contains(arg.kind())
                         && !is_already_reported_as_deprecated(arg)
                     {
                         // Edit range for quickfix.
-- 
2.43.0


From e7b9f3ea7e4e97897cfcd1566d5e13ae6793238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 08/62] fix: recognise ink! trait definition implementations
 without annotated methods

---
 .../src/analysis/diagnostics/contract/ink_impl.rs        | 5 ++++-
 crates/ir/src/tree/utils.rs                              | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..e9ef853 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -284,7 +284,10 @@ fn ensure_annotation_or_contains_callable(ink_impl: &InkImpl) -> Option<Diagnost
     let range = utils::ink_impl_declaration_range(ink_impl);
     (ink_impl.impl_attr().is_none()
         && ink_impl.constructors().is_empty()
-        && ink_impl.messages().is_empty())
+        && ink_impl.messages().is_empty()
+        // Missing messages for ink! trait definition implementations are reported separately,
+        // see `ensure_trait_definition_impl_invariants` doc.
+        && ink_impl.trait_definition().is_none())
     .then(|| Diagnostic {
         message: "At least one ink! constructor or ink! message \
         must be defined for an ink! impl without an `#[ink(impl)]` annotation."
diff --git a/crates/ir/src/tree/utils.rs b/crates/ir/src/tree/utils.rs
index 267b2cf..990e56c 100644
--- a/crates/ir/src/tree/utils.rs
+++ b/crates/ir/src/tree/utils.rs
@@ -183,8 +183,15 @@ where
 /// Ref: <https://github.com/paritytech/ink/blob/master/crates/ink/ir/src/ir/item_impl/mod.rs#L118-L216>.
 pub fn ink_impl_closest_descendants(node: &SyntaxNode) -> impl Iterator<Item = InkImpl> {
     node.children()
+        // `impl` children (including those in the item list of a `mod` item).
+        .flat_map(|child| {
+            if child.kind() == SyntaxKind::ITEM_LIST {
+                child.children().collect()
+            } else {
+                vec![child]
+            }
+        })
         .filter_map(ast::Impl::cast)
-        // `impl` children.
         .map(|item| item.syntax().clone())
         .chain(ink_attrs_closest_descendants(node).filter_map(|attr| {
             if is_possible_callable_ancestor(&attr) {
-- 
2.43.0


From 48bee1b56b893540b119c886ead5b77d8aad9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:35 +0000
Subject: [PATCH 09/62] fix: include ink! attributes, in declaration order,
 when adding missing trait definition messages

---
 .../src/analysis/diagnostics/contract/ink_impl.rs        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index e9ef853..2e2334d 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -519,7 +519,8 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
+        // NOTE: Messages are visited in the order in which they're declared.
+        let mut missing_messages = trait_definition.messages().iter().filter_map(|message| {
             // Filters missing messages (with valid names).
             message.fn_item().and_then(|fn_item| {
                 fn_item
@@ -582,8 +583,12 @@ fn ensure_trait_definition_impl_invariants(
                         .and_then(ast::RetType::ty)
                         .as_ref()
                         .map(ToString::to_string);
+                    // Includes the ink! attributes of the declaration.
+                    let ink_attrs = ink_analyzer_ir::ink_attrs(fn_item.syntax())
+                        .map(|attr| format!("{}\n", attr.syntax()))
+                        .join("");
                     let fn_sig = format!(
-                        "fn {fn_name}({}){}{}",
+                        "{ink_attrs}fn {fn_name}({}){}{}",
                         params.unwrap_or_default(),
                         if ret_type.is_some() { " -> " } else { "" },
                         ret_type.unwrap_or_default()
-- 
2.43.0


From 9a61c73c9c38fc42a734edad260da076c1223751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 10/62] fix: don't recurse infinitely for cyclic use
 declarations and type aliases

---
 crates/analyzer/src/resolution.rs | 56 ++++++++++++++++++++++++-------
 crates/ir/src/tree/ast_ext.rs     | 47 +++++++++++++++++++++-----
 2 files changed, 83 insertions(+), 20 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..b3719f3 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,18 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_inner(name, path, qualifiers, ref_node, &mut HashSet::new())
+}
+
+// Checks if a path resolves to an external crate item while keeping track of the type aliases seen so far,
+// so that cyclic type aliases don't lead to infinite recursion.
+fn is_external_crate_item_inner(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    seen_aliases: &mut HashSet<SyntaxNode>,
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +115,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &mut HashSet::new());
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -206,17 +218,24 @@ pub fn is_external_crate_item(
                     })
                 })
             };
-            let path_is_type_alias_for_name = || {
+            let mut path_is_type_alias_for_name = || {
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        seen_aliases.insert(type_alias.syntax().clone())
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_inner(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        seen_aliases,
+                                    )
+                                })
                     },
                 )
             };
@@ -304,9 +323,13 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 }
 
 // Collects crate use paths and aliases in the current scope.
+//
+// `pending` is the set of paths (and their reference nodes) that are currently being resolved,
+// it prevents infinite recursion for cyclic `use` declarations.
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    pending: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +342,8 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result =
+            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, pending);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +359,8 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result =
+                match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node, pending);
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -355,9 +380,14 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    pending: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+    let key = (path.to_owned(), ref_node.clone());
+    if !pending.insert(key.clone()) {
+        return (use_paths, item_aliases);
+    }
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +407,7 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, pending);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +429,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        pending,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -407,6 +438,7 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
+    pending.remove(&key);
     (use_paths, item_aliases)
 }
 
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index eb1b9d6..64adde4 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -108,6 +108,23 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_inner(path, ref_node, &mut HashSet::new())
+}
+
+/// Resolves an AST item while keeping track of the (path, reference node) pairs seen so far,
+/// so that cyclic `use` declarations don't lead to infinite recursion.
+fn resolve_item_inner<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    seen: &mut HashSet<(String, SyntaxNode)>,
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    if !seen.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -132,21 +149,21 @@ where
                     })
                 })
         };
-        let resolve_from_module_use_scope = || {
+        let resolve_from_module_use_scope = |seen: &mut HashSet<(String, SyntaxNode)>| {
             let item_name = target_name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
                 |resolved_path| {
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_inner(&resolved_path, &root_node, seen)
                     } else {
                         None
                     }
                 },
             )
         };
-        let resolve_from_ref_item_use_scope = || {
+        let resolve_from_ref_item_use_scope = |seen: &mut HashSet<(String, SyntaxNode)>| {
             let is_module_child = ref_node.parent().is_some_and(|parent| parent == root_node);
             if is_module_child {
                 let item_name = target_name.to_string();
@@ -155,7 +172,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_inner(&resolved_path, ref_node, seen)
                         } else {
                             None
                         }
@@ -167,8 +184,8 @@ where
         };
 
         resolve_as_module_child()
-            .or_else(resolve_from_module_use_scope)
-            .or_else(resolve_from_ref_item_use_scope)
+            .or_else(|| resolve_from_module_use_scope(seen))
+            .or_else(|| resolve_from_ref_item_use_scope(seen))
     })
 }
 
@@ -185,8 +202,22 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_inner(path, ref_node, &mut HashSet::new())
+}
+
+/// Resolves a qualifier while keeping track of the (path, reference node) pairs seen so far,
+/// so that cyclic `use` declarations don't lead to infinite recursion.
+fn resolve_qualifier_inner(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    seen: &mut HashSet<(String, SyntaxNode)>,
+) -> Option<SyntaxNode> {
+    if !seen.insert((path_to_string(path), ref_node.clone())) {
+        return None;
+    }
+
     // Resolves next child module.
-    let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
+    let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
             root.children().find(|it| {
                 ast::Module::can_cast(it.kind())
@@ -202,7 +233,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_inner(&resolved_path, root, seen)
                     } else {
                         None
                     }
-- 
2.43.0


From 3500829960acfb59da5fcca23669aeb05dbc0881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 11/62] fix: list missing trait definition arguments in a
 deterministic order

---
 crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index 2e2334d..4168782 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -827,6 +827,8 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        // Sorts by declaration order first (the index is unordered and arg kinds may sort as equal).
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From fceeea7dba92d912ce32cd20d71b9a2f385c8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:38 +0000
Subject: [PATCH 12/62] fix: show the constructor variant of the selector hint
 for split attributes

---
 crates/analyzer/src/analysis/inlay_hints.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/inlay_hints.rs b/crates/analyzer/src/analysis/inlay_hints.rs
index c5444a1..dc084f8 100644
--- a/crates/analyzer/src/analysis/inlay_hints.rs
+++ b/crates/analyzer/src/analysis/inlay_hints.rs
@@ -55,8 +55,12 @@ pub fn inlay_hints(file: &InkFile, range: Option<TextRange>, version: Version) -
     // Iterates over all ink! attributes in the file.
     for attr in file.tree().ink_attrs_in_scope() {
         // Returns inlay hints for all ink! attribute arguments with values in the selection range.
+        // The `constructor` argument may be declared in a separate (sibling) ink! attribute.
+        let is_constructor = [attr.clone()]
+            .into_iter()
+            .chain(attr.siblings())
+            .any(|attr| *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor));
         for arg in attr.args() {
-            let is_constructor = *attr.kind() == InkAttributeKind::Arg(InkArgKind::Constructor);
             process_inlay_hint(arg, is_constructor);
 
             let mut nested_arg = None;
-- 
2.43.0


From 41b4775005963c90f998fe8d9e7ad1b89e16cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:38 +0000
Subject: [PATCH 13/62] fix: account for the parent ink! scope in signature
 help

---
 crates/analyzer/src/analysis/signature_help.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/signature_help.rs b/crates/analyzer/src/analysis/signature_help.rs
index 8792ef6..f9cf893 100644
--- a/crates/analyzer/src/analysis/signature_help.rs
+++ b/crates/analyzer/src/analysis/signature_help.rs
@@ -118,11 +118,7 @@ pub fn signature_help(file: &InkFile, offset: TextSize, version: Version) -> Vec
                             // (also accounts for parent scope).
                             let mut possible_args =
                                 utils::valid_ink_args_by_syntax_kind(parent_item_kind, version);
-                            if let Some(attr_parent) = ink_attr
-                                .syntax()
-                                .parent()
-                                .filter(|it| it.kind() == parent_item_kind)
-                            {
+                            if let Some(attr_parent) = ink_attr.syntax().parent() {
                                 utils::remove_invalid_ink_arg_suggestions_for_parent_ink_scope(
                                     &mut possible_args,
                                     &attr_parent,
-- 
2.43.0


From 546a48436fb8efab052b4095cb29b45d22e081db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:46 +0000
Subject: [PATCH 14/62] fix: don't suggest a namespace for ink! trait impl
 attributes

---
 crates/analyzer/src/analysis/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index fd41d0c..4f56847 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -657,6 +657,9 @@ pub fn remove_duplicate_conflicting_and_invalid_scope_ink_arg_suggestions(
         // Filters out conflicting ink! attribute argument actions.
         remove_conflicting_ink_arg_suggestions(suggestions, &attr_parent, version);
 
+        // Filters out invalid ink! attribute argument actions based on parent item's invariants.
+        remove_invalid_ink_arg_suggestions_for_parent_item(suggestions, &attr_parent);
+
         // Filters out invalid (based on parent ink! scope) ink! attribute argument actions,
         // Doesn't apply to ink! attribute macros as their arguments are not influenced by the parent scope.
         if let InkAttributeKind::Arg(_) = ink_attr.kind() {
-- 
2.43.0


From 0f86887eb038d1167ed59cdd1cf088ef6d8edf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:08 +0000
Subject: [PATCH 15/62] fix: ignore trivia when adding separators for ink!
 arguments

---
 crates/analyzer/src/analysis/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 4f56847..014ac3d 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1052,7 +1052,11 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .r_paren_token()
                                     .and_then(|r_paren| {
-                                        r_paren.prev_token().and_then(|penultimate_token| {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &r_paren,
+                                            SyntaxToken::prev_token,
+                                        )
+                                        .and_then(|penultimate_token| {
                                             match penultimate_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
                                                 // Adds a comma if the token before the right parenthesis is
@@ -1088,7 +1092,11 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .l_paren_token()
                                     .and_then(|l_paren| {
-                                        l_paren.next_token().and_then(|first_token| {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &l_paren,
+                                            SyntaxToken::next_token,
+                                        )
+                                        .and_then(|first_token| {
                                             match first_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::R_PAREN => None,
                                                 // Adds a comma if the token after the left parenthesis is
-- 
2.43.0


From 61ea022833391fbeb73ec25276df83a055316fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:08 +0000
Subject: [PATCH 16/62] fix: suggest unique constructor selectors for split
 attributes

---
 crates/analyzer/src/analysis/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 014ac3d..d9d5cdd 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -920,10 +920,10 @@ pub fn ink_arg_insert_text(
                             .filter_map(|msg| msg.composed_selector().map(Selector::into_be_u32))
                             .collect();
                     } else if let Some(contract) = parent_contract() {
-                        let is_ctor = ink_attr
-                            .args()
-                            .iter()
-                            .any(|arg| *arg.kind() == InkArgKind::Constructor);
+                        let is_ctor = parent_fn.as_ref().is_some_and(|parent_fn| {
+                            ink_analyzer_ir::ink_arg_by_kind(parent_fn, InkArgKind::Constructor)
+                                .is_some()
+                        });
                         unavailable_ids = if is_ctor {
                             contract
                                 .constructors()
-- 
2.43.0


From 890fd0f3664ae701c6d67404a7ad40b11083a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:08 +0000
Subject: [PATCH 17/62] fix: ignore unknown ink! attribute macros when
 flattening attributes

---
 crates/analyzer/src/analysis/actions/item.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index e3b75b7..10bac18 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -664,7 +664,10 @@ fn root_ink_entity_actions(
 
 /// Computes actions for "flattening" ink! attributes for the target syntax node.
 fn flatten_attrs(results: &mut Vec<Action>, target: &SyntaxNode, range: TextRange) {
-    let mut attrs = ink_analyzer_ir::ink_attrs(target).sorted();
+    let mut attrs = ink_analyzer_ir::ink_attrs(target)
+        // Ignores unknown ink! attribute macros.
+        .filter(|attr| *attr.kind() != InkAttributeKind::Macro(InkMacroKind::Unknown))
+        .sorted();
     if let Some(primary_candidate) = attrs.next() {
         // Only computes flattening actions if the item has other argument-based ink! attributes.
         let other_arg_attrs = attrs.filter(|attr| matches!(attr.kind(), InkAttributeKind::Arg(_)));
-- 
2.43.0


From d8d329e91faf8a79502569d16cc1079bd733425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:49 +0000
Subject: [PATCH 18/62] fix: replace the whole nested argument list when
 completing nested ink! arguments

---
 crates/analyzer/src/analysis/completions.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index ef011da..64f2b8f 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -1,7 +1,9 @@
 //! ink! attribute completions.
 
 use ink_analyzer_ir::ast::HasAttrs;
-use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
+use ink_analyzer_ir::syntax::{
+    AstNode, AstToken, Direction, SyntaxKind, SyntaxToken, TextRange, TextSize,
+};
 use ink_analyzer_ir::{ast, ChainExtension, Contract, Event, EventV2, InkImpl, TraitDefinition};
 use ink_analyzer_ir::{
     InkArg, InkArgKind, InkArgValueKind, InkAttributeKind, InkEntity, InkFile, InkMacroKind,
@@ -347,7 +349,17 @@ pub fn argument_completions(
                             .name()
                             .expect("Valid ink! args must have a name");
                         let name_end = meta_name.syntax().text_range().end();
-                        edit_range = Some(TextRange::new(name_end, focused_arg.text_range().end()));
+                        // Includes the closing parenthesis of the nested argument list (if any).
+                        let nested_end = meta_name
+                            .syntax()
+                            .siblings_with_tokens(Direction::Next)
+                            .skip(1)
+                            .find(|elem| !elem.kind().is_trivia())
+                            .and_then(|elem| elem.into_node().and_then(ast::TokenTree::cast))
+                            .filter(|token_tree| token_tree.r_paren_token().is_some())
+                            .map(|token_tree| token_tree.syntax().text_range().end())
+                            .unwrap_or_else(|| focused_arg.text_range().end());
+                        edit_range = Some(TextRange::new(name_end, nested_end));
                         is_nested = true;
                         parent_arg_name = Some(meta_name.to_string());
                     }
-- 
2.43.0


From 8d58006beedf893028400730ea6308a96af291e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:54 +0000
Subject: [PATCH 19/62] fix: don't suggest ink! attribute macros for fields

---
 crates/analyzer/src/analysis/completions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index 64f2b8f..fa42560 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -140,8 +140,15 @@ pub fn macro_completions(
                         }
                         // Handles the case where the AST item type is unknown.
                         None => {
-                            // Returns all valid ink! attribute macro suggestions if focused token is part of an ink! path segment.
-                            if focused_token_is_in_ink_crate_path_segment {
+                            // Returns all valid ink! attribute macro suggestions if focused token is part of an ink! path segment,
+                            // except for fields, because ink! attribute macros can only be applied to AST items.
+                            let is_field_attr = attr.syntax().parent().is_some_and(|parent| {
+                                matches!(
+                                    parent.kind(),
+                                    SyntaxKind::RECORD_FIELD | SyntaxKind::TUPLE_FIELD
+                                )
+                            });
+                            if focused_token_is_in_ink_crate_path_segment && !is_field_attr {
                                 if version == Version::V5 {
                                     vec![
                                         InkMacroKind::ChainExtension,
-- 
2.43.0


From 662203128e3bc560695900728a6b2e94a1cac860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:54 +0000
Subject: [PATCH 20/62] fix: ignore empty arguments when flattening ink!
 attributes

---
 crates/analyzer/src/analysis/actions/item.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index 10bac18..a37ead0 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -693,6 +693,8 @@ fn flatten_attrs(results: &mut Vec<Action>, target: &SyntaxNode, range: TextRang
                                     .clone()
                                     .flat_map(|attr| attr.args().to_vec())
                             )
+                            // Ignores empty arguments (e.g. after trailing commas).
+                            .filter(|arg| !arg.meta().is_empty())
                             .sorted()
                             .map(|arg| arg.to_string())
                             .join(", ")
-- 
2.43.0


From 2c9125edad92cd9ad90286d2abef92f92d67147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 21/62] fix: ignore whitespace after a trailing comma in ink!
 attributes

---
 crates/ir/src/attrs/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/ir/src/attrs/parser.rs b/crates/ir/src/attrs/parser.rs
index eb51a59..66277e3 100644
--- a/crates/ir/src/attrs/parser.rs
+++ b/crates/ir/src/attrs/parser.rs
@@ -37,7 +37,7 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
             })
     }
 
-    token_tree
+    let mut meta_items: Vec<_> = token_tree
         .syntax()
         .children_with_tokens()
         // Skip starting parenthesis if present.
@@ -127,7 +127,17 @@ fn parse_meta_items(token_tree: &ast::TokenTree) -> Vec<MetaNameValue> {
                 )
             }
         })
-        .collect()
+        .collect();
+
+    // Ignores trivia (e.g. whitespace) after a trailing comma.
+    if r_paren.is_some()
+        && meta_items.len() > 1
+        && meta_items.last().is_some_and(MetaNameValue::is_empty)
+    {
+        meta_items.pop();
+    }
+
+    meta_items
 }
 
 // Parse meta name.
-- 
2.43.0


From 5f0422e8c2277eff1c1d74a706031a4094163184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:19 +0000
Subject: [PATCH 22/62] fix: handle positions past the end of a line or inside
 a character

---
 crates/lsp-server/src/translator/from_lsp.rs | 27 ++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..43304ca 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -22,7 +22,13 @@ pub fn offset(
         } else {
             WideEncoding::Utf16
         };
-        context.line_index.to_utf8(wide_encoding, wide_line_col)?
+        context
+            .line_index
+            .to_utf8(wide_encoding, wide_line_col)
+            .unwrap_or(LineCol {
+                line: position.line,
+                col: u32::MAX,
+            })
     } else {
         // Handles uft-8 position encoding.
         LineCol {
@@ -31,7 +37,24 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    let line_start = context.line_index.offset(LineCol {
+        line: line_col.line,
+        col: 0,
+    })?;
+    // Positions past the end of the line default back to the end of the line.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let line_end = line_col
+        .line
+        .checked_add(1)
+        .and_then(|line| context.line_index.offset(LineCol { line, col: 0 }))
+        .map(|next_line_start| next_line_start - ink_analyzer::TextSize::from(1))
+        .unwrap_or_else(|| context.line_index.len());
+    let offset = line_start
+        .checked_add(ink_analyzer::TextSize::from(line_col.col))
+        .map_or(line_end, |offset| offset.min(line_end));
+
+    // Ignores positions that point to the middle of a multi-byte character.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 6f93496b2e9678fb9a8a29123dbb92a7aa65f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:41 +0000
Subject: [PATCH 23/62] fix: reject invalid event extraction ranges instead of
 crashing

---
 crates/lsp-server/src/dispatch/handlers/command.rs |  2 ++
 crates/lsp-server/src/dispatch/handlers/request.rs | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..ff0ad84 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -150,6 +150,8 @@ pub fn handle_extract_event(
     // Retrieves snapshot and computes extraction.
     let Some((extraction, snapshot)) = snapshots
         .get(&id)
+        // Ignores ranges outside the document (or in the middle of a multi-byte character).
+        .filter(|snapshot| to_lsp::range(range, &snapshot.context).is_some())
         .and_then(|snapshot| snapshot.analysis.extract(range).zip(Some(snapshot)))
     else {
         return Err(anyhow::format_err!("Failed to extract ink! event."));
diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..876a28a 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,11 +322,15 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
-        .map(|(start, end)| {
-            ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
-            )
+        .and_then(|(start, end)| {
+            let start = u32::try_from(start).ok()?;
+            let end = u32::try_from(end).ok()?;
+            (start <= end).then(|| {
+                ink_analyzer::TextRange::new(
+                    ink_analyzer::TextSize::from(start),
+                    ink_analyzer::TextSize::from(end),
+                )
+            })
         })
 }
 
-- 
2.43.0


From 22873c33b08865159550eb60373a66bcfa3b94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:56 +0000
Subject: [PATCH 24/62] fix: keep the server running after an invalid
 notification

---
 crates/lsp-server/src/dispatch.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index b09bbf5..673b25c 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -187,17 +187,25 @@ impl<'a> Dispatcher<'a> {
     pub fn handle_notification(&mut self, not: lsp_server::Notification) -> anyhow::Result<()> {
         // Routes notification to appropriate handler (if any).
         let mut router = NotificationRouter::new(not, &mut self.memory);
-        router
+        let result = router
             .process::<lsp_types::notification::DidOpenTextDocument>(
                 handlers::notification::handle_did_open_text_document,
-            )?
-            .process::<lsp_types::notification::DidChangeTextDocument>(
-                handlers::notification::handle_did_change_text_document,
-            )?
-            .process::<lsp_types::notification::DidCloseTextDocument>(
-                handlers::notification::handle_did_close_text_document,
-            )?
-            .finish();
+            )
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidChangeTextDocument>(
+                    handlers::notification::handle_did_change_text_document,
+                )
+            })
+            .and_then(|router| {
+                router.process::<lsp_types::notification::DidCloseTextDocument>(
+                    handlers::notification::handle_did_close_text_document,
+                )
+            })
+            .map(NotificationRouter::finish);
+        if let Err(error) = result {
+            // Notifications have no response, so invalid notifications are logged and ignored.
+            eprintln!("{error}");
+        }
 
         // Process memory changes (if any) made by notification handlers.
         self.process_changes()?;
-- 
2.43.0


From 9ef056de24ff6dfbce309b61fc4029a8fb390479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:56 +0000
Subject: [PATCH 25/62] fix: only send migration edits to clients that can
 apply them

---
 crates/lsp-server/src/dispatch.rs | 7 +++++--
 crates/lsp-server/src/utils.rs    | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 673b25c..c9653de 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -344,8 +344,11 @@ impl<'a> Dispatcher<'a> {
                     };
                     (id, params)
                 })
-        } else if cmd == COMMAND_MIGRATE_PROJECT {
-            // Convert `migrateProject` response into a workspace edit.
+        } else if cmd == COMMAND_MIGRATE_PROJECT
+            && utils::can_apply_workspace_edits(&self.client_capabilities)
+        {
+            // Convert `migrateProject` response into a workspace edit
+            // (only if the client supports applying workspace edits).
             resp.result
                 .as_ref()
                 .and_then(|value| {
diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 9b4086b..7131142 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -119,6 +119,15 @@ pub fn request_id_as_str(id: RequestId) -> Option<String> {
         .map(ToString::to_string)
 }
 
+/// Returns true if the LSP client advertises support for `workspace/applyEdit` requests.
+pub fn can_apply_workspace_edits(client_capabilities: &ClientCapabilities) -> bool {
+    client_capabilities
+        .workspace
+        .as_ref()
+        .and_then(|it| it.apply_edit)
+        .unwrap_or(false)
+}
+
 /// Returns true if the LSP client advertises capabilities for creating workspace resources.
 pub fn can_create_workspace_resources(client_capabilities: &ClientCapabilities) -> bool {
     client_capabilities.workspace.as_ref().is_some_and(|it| {
-- 
2.43.0


From 732d65ebb80219248d828ce9ea9d259ef713492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 26/62] fix: match ink! 5 version requirements by their major
 version

---
 crates/lsp-server/src/dispatch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index c9653de..6229df1 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -555,7 +555,8 @@ impl InkProjectVersion {
 ///
 /// NOTE: We intentionally match `>5.x.x` to v5, because no version greater than v5 currently exists.
 fn is_v5_version_string(text: &str) -> bool {
-    static RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(^|\b)(([\^~>=])|(>=))?(\s)*5\.").unwrap());
+    static RE: Lazy<Regex> =
+        Lazy::new(|| Regex::new(r"(^|,)\s*([\^~=]|>=?)?\s*5(\.|\s*$|\s*,)").unwrap());
     RE.is_match(text)
 }
 
-- 
2.43.0


From dd52f26b610e7d24c55a78b070eb4075d7bd0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:03 +0000
Subject: [PATCH 27/62] fix: detect the ink! version of workspace root packages

---
 crates/lsp-server/src/dispatch.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/lsp-server/src/dispatch.rs b/crates/lsp-server/src/dispatch.rs
index 6229df1..f1545ca 100644
--- a/crates/lsp-server/src/dispatch.rs
+++ b/crates/lsp-server/src/dispatch.rs
@@ -440,6 +440,13 @@ fn parse_ink_project_version(doc_uri: &lsp_types::Url) -> Option<InkProjectVersi
                 let is_workspace_dependency =
                     project_version.as_ref().is_some_and(|it| it.workspace);
                 if is_workspace_dependency {
+                    // The package itself may be the workspace root.
+                    let root_project_version =
+                        parse_ink_project_version_inner(&cargo_toml_path, true);
+                    if root_project_version.is_some() {
+                        return root_project_version;
+                    }
+
                     // Finds `Cargo.toml` in workspace root directory (if any).
                     let mut parent_dir = cargo_toml_path.clone();
                     parent_dir.pop();
-- 
2.43.0


From 841f510c06be3151a5a62f7f20b3a1a240c57add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:07 +0000
Subject: [PATCH 28/62] fix: contract names that contain MyContract are no
 longer replaced twice in new projects

---
 crates/analyzer/src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer/src/codegen.rs b/crates/analyzer/src/codegen.rs
index 617e5b7..ba18f75 100644
--- a/crates/analyzer/src/codegen.rs
+++ b/crates/analyzer/src/codegen.rs
@@ -73,16 +73,16 @@ pub fn new_project(name: String, version: Version) -> Result<Project, Error> {
             } else {
                 CONTRACT_PLAIN
             }
-            .replace("my_contract", &module_name)
-            .replace("MyContract", &struct_name),
+            .replace("MyContract", &struct_name)
+            .replace("my_contract", &module_name),
             snippet: Some(
                 if version == Version::V5 {
                     CONTRACT_SNIPPET_V5
                 } else {
                     CONTRACT_SNIPPET
                 }
-                .replace("my_contract", &module_name)
-                .replace("MyContract", &struct_name),
+                .replace("MyContract", &struct_name)
+                .replace("my_contract", &module_name),
             ),
         },
         // Generates `Cargo.toml`.
-- 
2.43.0


From 6111fdd0c7ca8ee8d7b3d553a3b5851b43063f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:01 +0000
Subject: [PATCH 29/62] fix: text range of malformed arguments with a nested
 argument before the name no longer panics

---
 crates/ir/src/attrs/meta.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/ir/src/attrs/meta.rs b/crates/ir/src/attrs/meta.rs
index 27e0df0..578f780 100644
--- a/crates/ir/src/attrs/meta.rs
+++ b/crates/ir/src/attrs/meta.rs
@@ -125,10 +125,9 @@ impl MetaNameValue {
         let mut end: Option<TextSize> = None;
 
         let mut update_start_and_end = |range: TextRange| {
-            if start.is_none() {
-                start = Some(range.start());
-            }
-            end = Some(range.end());
+            // The nested meta item may come before the name in malformed arguments (e.g. `(nested) name`).
+            start = Some(start.map_or(range.start(), |it| it.min(range.start())));
+            end = Some(end.map_or(range.end(), |it| it.max(range.end())));
         };
 
         let get_items_text_range = |items: &[SyntaxElement]| -> Option<TextRange> {
-- 
2.43.0


From 630051ad55fcf114220e2d7e1389d6ebdf69a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:01 +0000
Subject: [PATCH 30/62] fix: argument completions after an unclosed attribute
 no longer panic

---
 crates/analyzer/src/analysis/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index d9d5cdd..fc9094b 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -759,6 +759,10 @@ pub fn ink_arg_insert_text(
         parent_attr_option
             .map(InkAttribute::syntax)
             .zip(insert_offset_option)
+            // The offset can be outside the attribute (e.g. after an unclosed attribute).
+            .filter(|(parent_node, insert_offset)| {
+                parent_node.text_range().contains_inclusive(*insert_offset)
+            })
             .and_then(|(parent_node, insert_offset)| {
                 parent_node
                     .token_at_offset(insert_offset)
-- 
2.43.0


From f0e79beb325d61b8d80de6542d649e15a27b54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:15 +0000
Subject: [PATCH 31/62] fix: resolve cyclic glob imports without exploring
 every path through them

---
 crates/analyzer/src/resolution.rs | 39 ++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index b3719f3..0c8e4b4 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -324,12 +324,12 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
 
 // Collects crate use paths and aliases in the current scope.
 //
-// `pending` is the set of paths (and their reference nodes) that are currently being resolved,
-// it prevents infinite recursion for cyclic `use` declarations.
+// `seen` is the set of paths (and their reference nodes) that are already accounted for,
+// it prevents infinite recursion and repeated work for cyclic `use` declarations.
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
-    pending: &mut HashSet<(String, SyntaxNode)>,
+    seen: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -342,8 +342,18 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result =
-            match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, pending);
+        // NOTE: Only glob imports share the paths seen so far, because they (transitively) add to the same result.
+        let mut seen_from_path = HashSet::new();
+        let result = match_path_to_external_crate_in_scope(
+            &use_path_str,
+            crates,
+            ref_node,
+            if use_path_str.ends_with("::*") {
+                &mut *seen
+            } else {
+                &mut seen_from_path
+            },
+        );
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -359,8 +369,12 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result =
-                match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node, pending);
+            let result = match_path_to_external_crate_in_scope(
+                &item_path_str,
+                crates,
+                ref_node,
+                &mut HashSet::new(),
+            );
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -380,12 +394,11 @@ fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
-    pending: &mut HashSet<(String, SyntaxNode)>,
+    seen: &mut HashSet<(String, SyntaxNode)>,
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
-    let key = (path.to_owned(), ref_node.clone());
-    if !pending.insert(key.clone()) {
+    if !seen.insert((path.to_owned(), ref_node.clone())) {
         return (use_paths, item_aliases);
     }
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
@@ -407,7 +420,8 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, pending);
+            let result =
+                external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, seen);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -429,7 +443,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
-                        pending,
+                        seen,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
@@ -438,7 +452,6 @@ fn match_path_to_external_crate_in_scope(
         }
     }
 
-    pending.remove(&key);
     (use_paths, item_aliases)
 }
 
-- 
2.43.0


From b1c0e15e50a0dfa336e92a40b0eb54975f6622af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 32/62] fix: resolve items from use declarations in a
 deterministic order

---
 crates/analyzer/src/resolution.rs | 7 +++++--
 crates/ir/src/tree/ast_ext.rs     | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 0c8e4b4..de6f276 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -336,7 +336,10 @@ fn external_crate_uses_and_aliases_in_scope(
 
     while let Some(use_path_str) = use_paths
         .iter()
-        .find_map(|use_path| (!is_crate_item_path(use_path, crates)).then(|| use_path.to_owned()))
+        .filter(|use_path| !is_crate_item_path(use_path, crates))
+        // Picks paths in a deterministic order.
+        .min()
+        .cloned()
     {
         // Removes path.
         use_paths.remove(&use_path_str);
@@ -378,7 +381,7 @@ fn external_crate_uses_and_aliases_in_scope(
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
-                .next()
+                .min()
                 .or_else(|| result.1.get(&target.to_string()))
             {
                 item_aliases.insert(alias, resolved_item_path.to_owned());
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 64adde4..8efe541 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -85,6 +85,9 @@ where
 macro_rules! resolve_item_path_from_use_scope_and_aliases {
     ($name: ident, $root_node: expr) => {{
         let (use_paths, item_aliases) = $crate::simple_use_paths_and_aliases_in_scope($root_node);
+        // Sorts use paths for deterministic resolution.
+        let mut use_paths: Vec<_> = use_paths.into_iter().collect();
+        use_paths.sort();
 
         std::iter::once(item_aliases.get(&$name).cloned())
             .flatten()
-- 
2.43.0


From b2648ade22a233c627c6459c1705e4468f0fc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:59 +0000
Subject: [PATCH 33/62] fix: return migration edits in a deterministic order

---
 crates/analyzer/src/analysis/migrate.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..5627cc3 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,7 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edits;
@@ -32,7 +32,14 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     host_fn::migrate(&mut results, file);
 
     // Migrate e2e tests.
-    e2e_test::migrate(&mut results, file);
+    // NOTE: Imports are sorted because they're not computed in a deterministic order.
+    let mut e2e_results = Vec::new();
+    e2e_test::migrate(&mut e2e_results, file);
+    e2e_results.sort_by_key(|edit| {
+        let import = edit.text.trim_start().starts_with("use ");
+        (edit.range.start(), import.then(|| edit.text.clone()))
+    });
+    results.extend(e2e_results);
 
     // Format and return edits.
     format_edits(results.into_iter().unique(), file).collect()
@@ -152,7 +159,7 @@ fn chain_extensions(results: &mut Vec<TextEdit>, file: &InkFile) {
 fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Mapping from target item (via location/start offset) to scale traits to derive and their insert offset.
     // Used to consolidate scale item traits from multiple attributes into a single new `scale_derive` attribute.
-    let mut scale_items_map: HashMap<TextSize, (TextSize, Vec<InkArgKind>)> = HashMap::new();
+    let mut scale_items_map: BTreeMap<TextSize, (TextSize, Vec<InkArgKind>)> = BTreeMap::new();
     let scale_trait_options: [(&str, &[&str], InkArgKind); 3] = [
         ("Encode", &resolution::SCALE_QUALIFIERS, InkArgKind::Encode),
         ("Decode", &resolution::SCALE_QUALIFIERS, InkArgKind::Decode),
-- 
2.43.0


From f862200c4f6c979ef15a0ccf98750514eed179d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 34/62] fix: migration replaces only the attributes of an
 event, not equal text in its comments

---
 crates/analyzer/src/analysis/migrate.rs | 32 +++++++++++++++----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 5627cc3..c8c9829 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,9 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
+use std::cmp::Reverse;
 use std::collections::BTreeMap;
+use std::ops::Range;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edits;
@@ -58,18 +60,14 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
         for event in contract.events() {
             if let Some(ink_attr) = event.ink_attr() {
                 // Replace legacy event with event 2.0.
-                let mut code = event.syntax().to_string();
-                code = code.replace(
-                    &ink_attr.syntax().to_string(),
-                    &format!(
-                        "#[ink::event{}]",
-                        if event.anonymous_arg().is_some() {
-                            "(anonymous)"
-                        } else {
-                            ""
-                        }
-                    ),
-                );
+                let mut replacements = vec![(
+                    ink_attr.syntax().text_range(),
+                    if event.anonymous_arg().is_some() {
+                        "#[ink::event(anonymous)]"
+                    } else {
+                        "#[ink::event]"
+                    },
+                )];
 
                 // Remove standalone `anonymous` attribute (if any).
                 if let Some(arg) = event.anonymous_arg() {
@@ -79,11 +77,19 @@ fn events(results: &mut Vec<TextEdit>, file: &InkFile) {
                         .contains_range(arg.text_range())
                     {
                         if let Some(anonymous_attr) = arg.parent_attr() {
-                            code = code.replace(&anonymous_attr.syntax().to_string(), "");
+                            replacements.push((anonymous_attr.syntax().text_range(), ""));
                         }
                     }
                 }
 
+                // Applies replacements from the end, so that the preceding ranges remain valid.
+                let mut code = event.syntax().to_string();
+                let event_start = event.syntax().text_range().start();
+                replacements.sort_by_key(|(range, _)| Reverse(range.start()));
+                for (range, text) in replacements {
+                    code.replace_range(Range::<usize>::from(range - event_start), text);
+                }
+
                 // Update indenting.
                 if let Some(indent) = utils::item_indenting(event.syntax()) {
                     code = utils::reduce_indenting(&code, &indent);
-- 
2.43.0


From 57c61b94b6a388441de93ffac65a58e0764ece4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 35/62] fix: migration no longer edits SCALE derives inside the
 previous location of a moved event

---
 crates/analyzer/src/analysis/migrate.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index c8c9829..8a9548f 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -23,12 +23,24 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
 
     // Migrate events.
     events(&mut results, file);
+    let moved_event_ranges: Vec<TextRange> = results
+        .iter()
+        .filter(|edit| edit.text.is_empty())
+        .map(|edit| edit.range)
+        .collect();
 
     // Migrate chain extensions.
     chain_extensions(&mut results, file);
 
     // Migrate built-in `derive`s of SCALE codec traits.
-    scale_derive(&mut results, file);
+    // NOTE: Events are moved as a whole, so edits inside their previous location don't apply.
+    let mut scale_derive_results = Vec::new();
+    scale_derive(&mut scale_derive_results, file);
+    results.extend(scale_derive_results.into_iter().filter(|edit| {
+        !moved_event_ranges
+            .iter()
+            .any(|range| range.contains_range(edit.range))
+    }));
 
     // Migrate cross-contract host function related APIs.
     host_fn::migrate(&mut results, file);
-- 
2.43.0


From 7c1b0dd4c0ec3ba66045fbaf20f8108a16aea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 36/62] fix: migration merges removals of adjacent list items
 that share a delimiter

---
 crates/analyzer/src/analysis/migrate.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 8a9548f..77748c8 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -56,7 +56,28 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     results.extend(e2e_results);
 
     // Format and return edits.
-    format_edits(results.into_iter().unique(), file).collect()
+    format_edits(merge_deletes(results).into_iter().unique(), file).collect()
+}
+
+/// Merges deletes that share text (e.g. the delimiter between adjacent list items that are both removed).
+fn merge_deletes(edits: Vec<TextEdit>) -> Vec<TextEdit> {
+    let mut results: Vec<TextEdit> = Vec::new();
+    for edit in edits {
+        let is_delete = edit.text.is_empty() && !edit.range.is_empty();
+        let previous = results.iter_mut().find(|other| {
+            is_delete
+                && other.text.is_empty()
+                && other
+                    .range
+                    .intersect(edit.range)
+                    .is_some_and(|shared| !shared.is_empty())
+        });
+        match previous {
+            Some(previous) => previous.range = previous.range.cover(edit.range),
+            None => results.push(edit),
+        }
+    }
+    results
 }
 
 /// Computes text edits for migrating ink! events to ink! 5.0 standalone events (a.k.a events 2.0).
-- 
2.43.0


From 5c0be92ecfd09482825ab52b677482671b5ec19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 37/62] fix: split whitespace after an edit at the end of the
 edit

---
 crates/analyzer/src/analysis/text_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 12109d4..09f4655 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -133,7 +133,7 @@ pub fn format_edit(mut edit: TextEdit, file: &InkFile) -> TextEdit {
         let (whitespace_before, whitespace_after) = if edit.range.is_empty() {
             whitespace_text.split_at(start.into())
         } else {
-            let end = whitespace_token.text_range().end() - edit.range.end();
+            let end = edit.range.end() - whitespace_token.text_range().start();
             let (whitespace_before, _) = whitespace_text.split_at(start.into());
             let (_, whitespace_after) = whitespace_text.split_at(end.into());
             (whitespace_before, whitespace_after)
-- 
2.43.0


From a117ddb591574c33b21014388a4cc002c8220580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:10 +0000
Subject: [PATCH 38/62] fix: migration also visits conditions, iterables, match
 guards and let-else blocks

---
 .../src/analysis/migrate/traversal.rs         | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..7e709ab 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,11 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    let guard_condition = arm.guard().and_then(|guard| guard.condition());
+                    visit_sub_expr_opt!(visitor, guard_condition);
+                    visit_sub_expr_opt!(visitor, arm.expr());
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +103,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,6 +131,12 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
+        let let_else_block = match &stmt {
+            ast::Stmt::LetStmt(let_stmt) => let_stmt
+                .let_else()
+                .and_then(|let_else| let_else.block_expr()),
+            _ => None,
+        };
         let expr = match stmt {
             ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
             ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
@@ -135,6 +146,9 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         if let Some(expr) = expr {
             visitor.visit_expr(&expr);
         }
+        if let Some(block) = let_else_block {
+            visitor.visit_block(&block);
+        }
     }
     let Some(expr) = stmt_list.tail_expr() else {
         return;
@@ -152,6 +166,7 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    visit_sub_expr_opt!(visitor, if_expr.condition());
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From 8119fc0740d6d133fa65daf23008279abb529267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:22 +0000
Subject: [PATCH 39/62] fix: formatting no longer extends a removal into
 another edit of the same action

---
 crates/analyzer/src/analysis/text_edit.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index 09f4655..a7267ce 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -69,7 +69,21 @@ pub fn format_edits<'a>(
     edits: impl Iterator<Item = TextEdit> + 'a,
     file: &'a InkFile,
 ) -> impl Iterator<Item = TextEdit> + 'a {
-    edits.map(|item| format_edit(item, file))
+    let edits: Vec<TextEdit> = edits.collect();
+    let ranges: Vec<TextRange> = edits.iter().map(|edit| edit.range).collect();
+    edits.into_iter().map(move |item| {
+        let range = item.range;
+        let mut edit = format_edit(item, file);
+        // Restores the original range if formatting extends it into the range of another edit
+        // (because the edits would then overlap).
+        let is_extended_into = |other: &TextRange| {
+            *other != range && range.end() <= other.start() && other.start() < edit.range.end()
+        };
+        if range.end() < edit.range.end() && ranges.iter().any(is_extended_into) {
+            edit.range = range;
+        }
+        edit
+    })
 }
 
 /// Format text edit (i.e. add indenting and new lines based on context).
-- 
2.43.0


From 6f5abdbff711f9ff400c00e470ea7c77a2677414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:22 +0000
Subject: [PATCH 40/62] fix: skip quick fixes that would move an item into
 itself

---
 crates/analyzer/src/analysis/diagnostics.rs | 3 +++
 crates/analyzer/src/analysis/text_edit.rs   | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics.rs b/crates/analyzer/src/analysis/diagnostics.rs
index 09152db..25a66bc 100644
--- a/crates/analyzer/src/analysis/diagnostics.rs
+++ b/crates/analyzer/src/analysis/diagnostics.rs
@@ -86,6 +86,9 @@ pub fn diagnostics(file: &InkFile, version: Version) -> Vec<Diagnostic> {
             quickfixes: diagnostic.quickfixes.map(|fixes| {
                 fixes
                     .into_iter()
+                    // Skips quickfixes that can't be applied (e.g. moving an item into itself
+                    // because the new parent is incomplete).
+                    .filter(|action| !text_edit::contains_overlapping_edits(&action.edits))
                     .map(|action| Action {
                         edits: text_edit::format_edits(action.edits.into_iter(), file).collect(),
                         ..action
diff --git a/crates/analyzer/src/analysis/text_edit.rs b/crates/analyzer/src/analysis/text_edit.rs
index a7267ce..ee03bb2 100644
--- a/crates/analyzer/src/analysis/text_edit.rs
+++ b/crates/analyzer/src/analysis/text_edit.rs
@@ -64,6 +64,15 @@ impl TextEdit {
     }
 }
 
+/// Returns true if any of the text edits overlap.
+pub fn contains_overlapping_edits(edits: &[TextEdit]) -> bool {
+    edits.iter().enumerate().any(|(idx, edit)| {
+        edits[idx + 1..].iter().any(|other| {
+            edit.range.start() < other.range.end() && other.range.start() < edit.range.end()
+        })
+    })
+}
+
 /// Format text edits (i.e. add indenting and new lines based on context).
 pub fn format_edits<'a>(
     edits: impl Iterator<Item = TextEdit> + 'a,
-- 
2.43.0


From a69e3b2d946a5bdfc36ca03c84c0084065e701b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 41/62] fix: migration only renames host function methods
 called on the contract's environment

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..441ff6c 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -225,10 +225,11 @@ impl Visitor for BodyVisitor {
                         .name_ref()
                         .is_some_and(|name| name.to_string() == "env")
             });
-        if !is_self_env_call {
+        if is_self_env_call {
+            chained_env_host_fn_call(&mut self.results, expr.syntax());
+        } else {
             walk_method_call(self, expr);
         }
-        chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
 }
 
-- 
2.43.0


From 7c2401a7c1287588d7eac6099db40bedd1c19662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 42/62] fix: migration also visits the arguments of host
 function calls

---
 .../analyzer/src/analysis/migrate/host_fn.rs  | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 441ff6c..0d02591 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -153,7 +153,7 @@ impl Visitor for BodyVisitor {
             }
             // Replace `.call(..)` with `.call_v1(..)`.
             HostFnWrapper::BuildCall(_) => {
-                let Some((_, host_fn_name_ref)) = chained_host_fn_call(
+                let host_fn_call = chained_host_fn_call(
                     expr.syntax(),
                     "call",
                     &[
@@ -166,29 +166,31 @@ impl Visitor for BodyVisitor {
                         "transferred_value",
                         "code_hash",
                     ],
-                ) else {
-                    return;
-                };
-                self.results.push(TextEdit::replace(
-                    "call_v1".to_owned(),
-                    host_fn_name_ref.syntax().text_range(),
-                ));
+                );
+                if let Some((_, host_fn_name_ref)) = host_fn_call {
+                    self.results.push(TextEdit::replace(
+                        "call_v1".to_owned(),
+                        host_fn_name_ref.syntax().text_range(),
+                    ));
+                }
             }
             // Replace `instantiate_contract::<..>(..)` with `instantiate_contract_v1::<..>(..)` or
             // `invoke_contract::<..>(..)` with `invoke_contract::<..>(..)`.
             HostFnWrapper::InstantiateContract(ref path)
             | HostFnWrapper::InvokeContract(ref path) => {
-                let Some(name_ref) = path.segment().as_ref().and_then(ast::PathSegment::name_ref)
-                else {
-                    return;
-                };
-                self.results.push(TextEdit::replace(
-                    format!("{name_ref}_v1"),
-                    name_ref.syntax().text_range(),
-                ));
+                if let Some(name_ref) = path.segment().as_ref().and_then(ast::PathSegment::name_ref)
+                {
+                    self.results.push(TextEdit::replace(
+                        format!("{name_ref}_v1"),
+                        name_ref.syntax().text_range(),
+                    ));
+                }
             }
         }
 
+        // Migrate nested calls (e.g. in arguments).
+        walk_call(self, expr);
+
         fn chained_host_fn_call(
             ref_node: &SyntaxNode,
             name: &str,
-- 
2.43.0


From 592ce56746dcb8c303c9f477d0563cc944e4848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:59 +0000
Subject: [PATCH 43/62] fix: extracted events keep comments inside the struct
 in place

---
 crates/analyzer/src/analysis/extract.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer/src/analysis/extract.rs b/crates/analyzer/src/analysis/extract.rs
index 31fcd8e..9502ddb 100644
--- a/crates/analyzer/src/analysis/extract.rs
+++ b/crates/analyzer/src/analysis/extract.rs
@@ -1,8 +1,7 @@
 //! ink! event extraction.
 
-use ink_analyzer_ir::ast::edit_in_place::AttrsOwnerEdit;
 use ink_analyzer_ir::ast::{HasAttrs, HasName};
-use ink_analyzer_ir::syntax::{AstNode, AstToken, TextRange};
+use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxElement, SyntaxKind, TextRange};
 use ink_analyzer_ir::{ast, Event, EventV2, InkArgKind, InkAttribute, InkEntity, InkFile};
 use itertools::Itertools;
 
@@ -53,9 +52,16 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
 
     // Composes content of extracted ink! event.
     // Effectively migrates event to 2.0 if necessary.
+    let is_attr_or_trivia = |elem: &SyntaxElement| {
+        matches!(
+            elem.kind(),
+            SyntaxKind::ATTR | SyntaxKind::COMMENT | SyntaxKind::WHITESPACE
+        )
+    };
     let comments = struct_item
         .syntax()
         .children_with_tokens()
+        .take_while(is_attr_or_trivia)
         .filter_map(|elem| elem.into_token().and_then(ast::Comment::cast))
         .join("\n");
     let non_ink_attrs = struct_item
@@ -69,9 +75,11 @@ pub fn extract(file: &InkFile, range: TextRange) -> Option<Extraction> {
         .map(|arg| format!("({arg})"));
     let event_attr = format!("#[ink::event{}]", event_arg.as_deref().unwrap_or_default());
     let struct_indent = utils::item_indenting(struct_item.syntax());
-    let mutable_struct = struct_item.clone_for_update();
-    mutable_struct.remove_attrs_and_docs();
-    let mut struct_content = mutable_struct.syntax().to_string();
+    let mut struct_content = struct_item
+        .syntax()
+        .children_with_tokens()
+        .skip_while(is_attr_or_trivia)
+        .join("");
     if let Some(struct_indent) = struct_indent {
         struct_content = utils::reduce_indenting(&struct_content, &struct_indent);
     }
-- 
2.43.0


From 3f43fc5b2e8f697ac19971edf623143c79648517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:58 +0000
Subject: [PATCH 44/62] fix: migration removes derives that only list SCALE
 codec traits and end with a comma

---
 crates/analyzer/src/analysis/migrate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 77748c8..6e2aa13 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -251,6 +251,9 @@ fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
             for name in utils::token_tree_to_non_delimited_meta_string(&derive_meta)
                 .replace(' ', "")
                 .split(',')
+                .map(str::trim)
+                // Skips the empty name after a trailing comma (if any).
+                .filter(|name| !name.is_empty())
             {
                 if let Some(path) = ink_analyzer_ir::path_from_str(name) {
                     let ref_node = attr
-- 
2.43.0


From 42af81d8a7cfa2e1dea323022a761605127cba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:11 +0000
Subject: [PATCH 45/62] fix: migration adds e2e imports before codec attributes
 at the same position

---
 crates/analyzer/src/analysis/migrate.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 6e2aa13..ad31177 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -32,16 +32,6 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     // Migrate chain extensions.
     chain_extensions(&mut results, file);
 
-    // Migrate built-in `derive`s of SCALE codec traits.
-    // NOTE: Events are moved as a whole, so edits inside their previous location don't apply.
-    let mut scale_derive_results = Vec::new();
-    scale_derive(&mut scale_derive_results, file);
-    results.extend(scale_derive_results.into_iter().filter(|edit| {
-        !moved_event_ranges
-            .iter()
-            .any(|range| range.contains_range(edit.range))
-    }));
-
     // Migrate cross-contract host function related APIs.
     host_fn::migrate(&mut results, file);
 
@@ -55,6 +45,17 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     });
     results.extend(e2e_results);
 
+    // Migrate built-in `derive`s of SCALE codec traits.
+    // NOTE: Attributes must be added after any imports that are added at the same position.
+    // NOTE: Events are moved as a whole, so edits inside their previous location don't apply.
+    let mut scale_derive_results = Vec::new();
+    scale_derive(&mut scale_derive_results, file);
+    results.extend(scale_derive_results.into_iter().filter(|edit| {
+        !moved_event_ranges
+            .iter()
+            .any(|range| range.contains_range(edit.range))
+    }));
+
     // Format and return edits.
     format_edits(merge_deletes(results).into_iter().unique(), file).collect()
 }
-- 
2.43.0


From 453955bd002efb586928239f3ab965940fe4b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:11 +0000
Subject: [PATCH 46/62] fix: migration keeps the leading colons of a Call path

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 0d02591..ceec729 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -87,9 +87,15 @@ impl Visitor for BodyVisitor {
             let generic_args_list = common::last_segment_generic_args(&call_type_path)
                 .as_ref()
                 .map(ToString::to_string);
+            // Keeps the leading `::` (if any).
+            let root = if call_type_path.syntax().to_string().starts_with("::") {
+                "::"
+            } else {
+                ""
+            };
             self.results.push(TextEdit::replace(
                 format!(
-                    "ink::env::call::CallV1{}",
+                    "{root}ink::env::call::CallV1{}",
                     generic_args_list.as_deref().unwrap_or_default()
                 ),
                 call_type_path.syntax().text_range(),
-- 
2.43.0


From c6072cf5b8fc77315701a7110ca1930566994bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:55 +0000
Subject: [PATCH 47/62] fix: migration adds e2e imports after the inner
 attributes of a file

---
 crates/analyzer/src/analysis/migrate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index ad31177..5190eb9 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -39,6 +39,19 @@ pub fn migrate(file: &InkFile) -> Vec<TextEdit> {
     // NOTE: Imports are sorted because they're not computed in a deterministic order.
     let mut e2e_results = Vec::new();
     e2e_test::migrate(&mut e2e_results, file);
+    // NOTE: Imports in the file root must be added after its inner attributes (if any).
+    let inner_attrs_end = file
+        .syntax()
+        .children()
+        .filter_map(ast::Attr::cast)
+        .filter(|attr| attr.kind().is_inner())
+        .map(|attr| attr.syntax().text_range().end())
+        .max();
+    for edit in &mut e2e_results {
+        if let Some(offset) = inner_attrs_end.filter(|offset| edit.range.start() < *offset) {
+            edit.range = TextRange::new(offset, offset);
+        }
+    }
     e2e_results.sort_by_key(|edit| {
         let import = edit.text.trim_start().starts_with("use ");
         (edit.range.start(), import.then(|| edit.text.clone()))
-- 
2.43.0


From d236d87a43f6bde173ddd655e35ef9ac4617d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:43 +0000
Subject: [PATCH 48/62] fix: removing a function body keeps the declaration
 well-formed

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 9241adc..6f8e0f5 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1731,7 +1731,10 @@ pub fn ensure_trait_item_invariants<F, G>(
                                     label: "Remove function body.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: body.syntax().text_range(),
-                                    edits: vec![TextEdit::delete(body.syntax().text_range())],
+                                    edits: vec![TextEdit::replace(
+                                        ";".to_owned(),
+                                        body.syntax().text_range(),
+                                    )],
                                 }
                             ]),
                         });
-- 
2.43.0


From 3ef9b581bdfaa5eb623cf1381e88bd344ac99fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:43 +0000
Subject: [PATCH 49/62] fix: removing an argument with nested arguments also
 removes its closing parentheses

---
 crates/analyzer/src/analysis/utils.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index fc9094b..0ac21f2 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1555,6 +1555,24 @@ pub fn ink_arg_and_delimiter_removal_range(
         SyntaxElement::Token(token) => Some(token.clone()),
     });
 
+    // Includes the closing parentheses of nested arguments (if any).
+    let last_token_option = last_token_option.map(|last_token| {
+        std::iter::successors(arg.nested(), InkArg::nested).fold(last_token, |token, _| {
+            ink_analyzer_ir::closest_item_which(
+                &token,
+                SyntaxToken::next_token,
+                |subject| subject.kind() == SyntaxKind::R_PAREN,
+                |subject| !subject.kind().is_trivia(),
+            )
+            .unwrap_or(token)
+        })
+    });
+    let arg_end = last_token_option
+        .as_ref()
+        .filter(|_| arg.nested().is_some())
+        .map(|token| token.text_range().end())
+        .unwrap_or_else(|| arg.text_range().end());
+
     // Determines the parent attribute for the argument.
     if let Some(attr) = parent_attr_option.cloned().or_else(|| {
         last_token_option
@@ -1591,7 +1609,7 @@ pub fn ink_arg_and_delimiter_removal_range(
 
     // Returns the text range of attribute argument + delimiter (if any) .
     TextRange::new(
-        if end == arg.text_range().end() {
+        if end == arg_end {
             // Gets the first token of the ink! attribute argument (if any).
             arg.meta()
                 // Argument name.
@@ -1629,7 +1647,7 @@ pub fn ink_arg_and_delimiter_removal_range(
         .as_ref()
         // Returns a text range including previous delimiter token (if any).
         // Previous is implied because we know there's no next delimiter
-        // because `end == arg.text_range().end()`.
+        // because `end == arg_end`.
         .map(|token| token_and_delimiter_range(token, SyntaxKind::COMMA))
         .unwrap_or_else(|| arg.text_range())
         .start(),
-- 
2.43.0


From db8648cea0868eb7421608d1baf776a495e93126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:27 +0000
Subject: [PATCH 50/62] fix: move callables with a visibility only into
 inherent impl blocks

---
 .../src/analysis/diagnostics/common.rs        | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index 6f8e0f5..ba8364c 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1789,14 +1789,19 @@ where
             item.syntax(),
         )
         .or_else(|| {
-            item.syntax()
-                .siblings(ink_analyzer_ir::syntax::Direction::Prev)
-                .find_map(ast::Impl::cast)
-                .or_else(|| {
-                    item.syntax()
-                        .siblings(ink_analyzer_ir::syntax::Direction::Next)
-                        .find_map(ast::Impl::cast)
-                })
+            // Items with a visibility can't be moved into a trait `impl` block.
+            let is_valid_sibling = |impl_item: &ast::Impl| {
+                impl_item.trait_().is_none()
+                    || !item.syntax().children().any(|it| ast::Visibility::can_cast(it.kind()))
+            };
+            let find_sibling_impl = |direction| {
+                item.syntax()
+                    .siblings(direction)
+                    .filter_map(ast::Impl::cast)
+                    .find(is_valid_sibling)
+            };
+            find_sibling_impl(ink_analyzer_ir::syntax::Direction::Prev)
+                .or_else(|| find_sibling_impl(ink_analyzer_ir::syntax::Direction::Next))
         })
         .as_ref()
         .and_then(|impl_item| Some(impl_item).zip(impl_item.assoc_item_list()))
-- 
2.43.0


From b0b06dc479d10f76e1dc69a3ee5e40d2cfee0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:11 +0000
Subject: [PATCH 51/62] fix: only offer to move functions into impl blocks

---
 crates/analyzer/src/analysis/diagnostics/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/common.rs b/crates/analyzer/src/analysis/diagnostics/common.rs
index ba8364c..0805344 100644
--- a/crates/analyzer/src/analysis/diagnostics/common.rs
+++ b/crates/analyzer/src/analysis/diagnostics/common.rs
@@ -1832,7 +1832,9 @@ where
                         },
                     )
                 })
-        }),
+        })
+        // Only functions can be moved into an `impl` block.
+        .filter(|_| ast::Fn::can_cast(item.syntax().kind())),
     })
 }
 
-- 
2.43.0


From b41a068a9e0de67154980f9def443c5b685a3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:03 +0000
Subject: [PATCH 52/62] fix: added chain extension functions get an unused name
 and id

---
 .../analyzer/src/analysis/text_edit/common.rs   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..70ee54c 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,8 +5,8 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait, Message,
-    TraitDefinition, Version,
+    ast, ChainExtension, Contract, Extension, Function, InkEntity, InkFile, IsInkFn, IsInkTrait,
+    Message, TraitDefinition, Version,
 };
 
 use super::{utils, TextEdit};
@@ -312,6 +312,12 @@ pub fn add_extension(
         .extensions()
         .iter()
         .filter_map(Extension::fn_item)
+        .chain(
+            chain_extension
+                .functions()
+                .iter()
+                .filter_map(Function::fn_item),
+        )
         .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
         .collect();
     let (mut text, mut snippet) = if version == Version::V5 {
@@ -333,6 +339,13 @@ pub fn add_extension(
         .extensions()
         .iter()
         .filter_map(Extension::id)
+        .chain(
+            chain_extension
+                .functions()
+                .iter()
+                .filter_map(Function::id)
+                .map(u32::from),
+        )
         .collect();
     let id = utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
     if id > 1 {
-- 
2.43.0


From f920f3dea45d156886f0a5b21812d838236eac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 53/62] fix: added contracts only have an inner attribute where
 it is allowed

---
 .../analyzer/src/analysis/actions/entity.rs   |  8 +++-
 crates/analyzer/src/analysis/actions/item.rs  |  1 +
 crates/analyzer/src/analysis/completions.rs   |  2 +-
 .../analyzer/src/analysis/text_edit/common.rs | 38 +++++++++++--------
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..8e821b3 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -489,6 +489,7 @@ pub fn add_ink_e2e_test(
 
 /// Add an ink! contract `mod`.
 pub fn add_contract(
+    file: &InkFile,
     range: TextRange,
     kind: ActionKind,
     indent_option: Option<&str>,
@@ -498,7 +499,12 @@ pub fn add_contract(
         label: "Add ink! contract `mod`.".to_owned(),
         kind,
         range,
-        edits: vec![text_edit::add_contract(range, indent_option, version)],
+        edits: vec![text_edit::add_contract(
+            file,
+            range,
+            indent_option,
+            version,
+        )],
     }
 }
 
diff --git a/crates/analyzer/src/analysis/actions/item.rs b/crates/analyzer/src/analysis/actions/item.rs
index a37ead0..3d3197f 100644
--- a/crates/analyzer/src/analysis/actions/item.rs
+++ b/crates/analyzer/src/analysis/actions/item.rs
@@ -613,6 +613,7 @@ fn root_ink_entity_actions(
     if file.contracts().is_empty() {
         // Adds ink! contract.
         results.push(entity::add_contract(
+            file,
             range,
             ActionKind::Refactor,
             None,
diff --git a/crates/analyzer/src/analysis/completions.rs b/crates/analyzer/src/analysis/completions.rs
index fa42560..2c1fc40 100644
--- a/crates/analyzer/src/analysis/completions.rs
+++ b/crates/analyzer/src/analysis/completions.rs
@@ -869,7 +869,7 @@ pub fn entity_completions(
             results.push(Completion {
                 label: "#[ink::contract]..mod contract {...}".to_owned(),
                 range,
-                edit: text_edit::add_contract(range, None, version),
+                edit: text_edit::add_contract(file, range, None, version),
                 detail: Some("ink! contract".to_owned()),
                 kind: CompletionKind::Mod,
             });
diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 70ee54c..8f71f72 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -73,21 +73,29 @@ macro_rules! mod_item_names {
 }
 
 /// Creates text edit for ink! contract.
-pub fn add_contract(range: TextRange, indent: Option<&str>, version: Version) -> TextEdit {
-    text_edit_with_indent(
-        if version == Version::V5 {
-            CONTRACT_PLAIN_V5
-        } else {
-            CONTRACT_PLAIN
-        },
-        range,
-        Some(if version == Version::V5 {
-            CONTRACT_SNIPPET_V5
-        } else {
-            CONTRACT_SNIPPET
-        }),
-        indent,
-    )
+pub fn add_contract(
+    file: &InkFile,
+    range: TextRange,
+    indent: Option<&str>,
+    version: Version,
+) -> TextEdit {
+    let (mut text, mut snippet) = if version == Version::V5 {
+        (CONTRACT_PLAIN_V5, CONTRACT_SNIPPET_V5)
+    } else {
+        (CONTRACT_PLAIN, CONTRACT_SNIPPET)
+    };
+    // Removes the inner attribute if it would be inserted after an item.
+    let has_preceding_items = file
+        .syntax()
+        .children()
+        .any(|it| ast::Item::can_cast(it.kind()) && it.text_range().start() < range.start());
+    if has_preceding_items {
+        let without_inner_attr =
+            |code: &'static str| code.find("#[ink::contract]").map_or(code, |idx| &code[idx..]);
+        text = without_inner_attr(text);
+        snippet = without_inner_attr(snippet);
+    }
+    text_edit_with_indent(text, range, Some(snippet), indent)
 }
 
 /// Creates text edit for ink! storage.
-- 
2.43.0


From 1e0400fc7416b1c956526b7f9ad2d3eaf4477947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:17 +0000
Subject: [PATCH 54/62] fix: callables are added to an impl block of the
 contract's storage

---
 crates/analyzer/src/analysis/utils.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index 0ac21f2..3825522 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1865,13 +1865,30 @@ pub fn field_insert_offset_end_and_affixes(
 pub fn callable_insert_offset_indent_and_affixes(
     contract: &Contract,
 ) -> Option<(TextSize, String, Option<String>, Option<String>)> {
+    let storage_name = contract
+        .storage()
+        .and_then(Storage::struct_item)
+        .and_then(HasName::name)
+        .as_ref()
+        .map(ToString::to_string);
+    // `impl` blocks of other types can't define callables.
+    let is_storage_impl = |impl_item: &ast::Impl| match (&storage_name, impl_item.self_ty()) {
+        (Some(name), Some(ast::Type::PathType(self_ty))) => self_ty
+            .path()
+            .and_then(|path| path.segment())
+            .and_then(|segment| segment.name_ref())
+            .is_some_and(|name_ref| name_ref.to_string() == *name),
+        _ => true,
+    };
     contract
         .module()
         // Gets the first non-trait `impl` block (if any).
         .and_then(ast::Module::item_list)
         .and_then(|it| {
             it.items().find_map(|it| match it {
-                ast::Item::Impl(impl_item) => impl_item.trait_().is_none().then_some(impl_item),
+                ast::Item::Impl(impl_item) => (impl_item.trait_().is_none()
+                    && is_storage_impl(&impl_item))
+                .then_some(impl_item),
                 _ => None,
             })
         })
-- 
2.43.0


From 9acce8dc01689a373ab567ce5aa0ef5b8cd93823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:51 +0000
Subject: [PATCH 55/62] fix: resolve paths through nested modules

---
 crates/ir/src/tree/ast_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 8efe541..df3b685 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -222,7 +222,7 @@ fn resolve_qualifier_inner(
     // Resolves next child module.
     let mut resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
-            root.children().find(|it| {
+            resolve_item_list_root(root).children().find(|it| {
                 ast::Module::can_cast(it.kind())
                     && ast::Module::cast(it.clone())
                         .and_then(|module| module.name())
-- 
2.43.0


From a269ec24c88cf0b60e24740d10eb469d3777482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:51 +0000
Subject: [PATCH 56/62] fix: resolve paths with repeated `super` qualifiers

---
 crates/ir/src/tree/ast_ext.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index df3b685..6d7bd2d 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -203,6 +203,11 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
         })
 }
 
+/// Resolves parent module (if any).
+fn resolve_parent_module(module: &SyntaxNode) -> Option<SyntaxNode> {
+    module.parent().as_ref().and_then(resolve_current_module)
+}
+
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
     resolve_qualifier_inner(path, ref_node, &mut HashSet::new())
@@ -273,9 +278,7 @@ fn resolve_qualifier_inner(
             // Resolve from parent module.
             resolve_current_module(ref_node)
                 .as_ref()
-                .and_then(SyntaxNode::parent)
-                .as_ref()
-                .and_then(resolve_current_module)
+                .and_then(resolve_parent_module)
         } else {
             resolve_current_module(ref_node)
                 .zip(root_segment.name_ref())
@@ -287,9 +290,14 @@ fn resolve_qualifier_inner(
 
     // Resolves the remaining qualifier segments (if any).
     while let Some((node, segment)) = resolution_root_option.as_ref().zip(path_segments.next()) {
-        resolution_root_option = segment
-            .name_ref()
-            .and_then(|name| resolve_next_child_module(&name, node));
+        resolution_root_option = if segment.super_token().is_some() {
+            // `super` can be repeated after `super` or `self`.
+            resolve_parent_module(node)
+        } else {
+            segment
+                .name_ref()
+                .and_then(|name| resolve_next_child_module(&name, node))
+        };
     }
 
     resolution_root_option
-- 
2.43.0


From ee52801a8b1562cd9e823396a86677116ac85d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:51 +0000
Subject: [PATCH 57/62] fix: order of the modules in the path of an item

---
 crates/analyzer/src/resolution.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index de6f276..fd3b5f5 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,20 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        // Module names (from the innermost to the outermost).
+        let modules: Vec<_> = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect();
+        iter::once(String::from("crate"))
+            .chain(modules.into_iter().rev())
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0


From 1368ae963105b8515d6f4526a1f95df060111c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:00 +0000
Subject: [PATCH 58/62] fix: resolve type aliases of unqualified paths

---
 crates/ir/src/tree/ast_ext.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 6d7bd2d..95b8bd4 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -102,7 +102,6 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
                 }
             }))
             .filter_map(|path_str| $crate::path_from_str(&path_str))
-            .filter(|path| path.qualifier().is_some())
     }};
 }
 
-- 
2.43.0


From 30e94ab31b7381fb169244ee845f73c6ff93e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:28 +0000
Subject: [PATCH 59/62] fix: recognise items of other crates by paths to local
 re-exports

---
 crates/analyzer/src/resolution.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index fd3b5f5..64f93ab 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -246,9 +246,29 @@ fn is_external_crate_item_inner(
                 )
             };
 
+            // Path is qualified by a local module that (re-)exports the external crate item.
+            let qualified_path_is_re_export = || {
+                path.qualifier().is_some() && {
+                    let (use_paths, item_aliases) = match_path_to_external_crate_in_scope(
+                        &ink_analyzer_ir::path_to_string(path),
+                        &crates,
+                        &root_node,
+                        &mut HashSet::new(),
+                    );
+                    exhaustive_qualifiers(qualifiers)
+                        .into_iter()
+                        .map(|prefix| format!("{prefix}::{name}"))
+                        .any(|item_path| {
+                            use_paths.contains(&item_path)
+                                || item_aliases.values().any(|it| *it == item_path)
+                        })
+                }
+            };
+
             (name_is_path_target
                 && (unqualified_target_name_in_scope() || sub_qualifier_or_alias_in_scope()))
                 || target_is_name_alias()
+                || qualified_path_is_re_export()
                 || path_is_type_alias_for_name()
         })
 }
-- 
2.43.0


From 51504512e9bf210f75ed804d839d4add21487a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 60/62] fix: explicit imports take precedence over glob imports

---
 crates/ir/src/tree/ast_ext.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 95b8bd4..19dcfcf 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -86,21 +86,32 @@ macro_rules! resolve_item_path_from_use_scope_and_aliases {
     ($name: ident, $root_node: expr) => {{
         let (use_paths, item_aliases) = $crate::simple_use_paths_and_aliases_in_scope($root_node);
         // Sorts use paths for deterministic resolution.
-        let mut use_paths: Vec<_> = use_paths.into_iter().collect();
+        let mut use_paths: Vec<_> = use_paths
+            .into_iter()
+            .map(|use_path| use_path.replace(' ', ""))
+            .collect();
         use_paths.sort();
 
-        std::iter::once(item_aliases.get(&$name).cloned())
+        // Explicit imports shadow glob imports.
+        let mut paths: Vec<_> = std::iter::once(item_aliases.get(&$name).cloned())
             .flatten()
-            .chain(use_paths.into_iter().filter_map(|use_path| {
-                let path_str = use_path.replace(' ', "");
-                if path_str.ends_with(&format!("::{}", $name)) {
-                    Some(path_str)
-                } else if let Some(prefix) = path_str.strip_suffix("::*") {
-                    Some(format!("{prefix}::{}", $name))
-                } else {
-                    None
-                }
-            }))
+            .chain(
+                use_paths
+                    .iter()
+                    .filter(|path_str| path_str.ends_with(&format!("::{}", $name)))
+                    .cloned(),
+            )
+            .collect();
+        if paths.is_empty() {
+            paths.extend(
+                use_paths
+                    .iter()
+                    .filter_map(|path_str| path_str.strip_suffix("::*"))
+                    .map(|prefix| format!("{prefix}::{}", $name)),
+            );
+        }
+        paths
+            .into_iter()
             .filter_map(|path_str| $crate::path_from_str(&path_str))
     }};
 }
-- 
2.43.0


From e4432642ba1aa95e7208c09badca22b53224d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:21 +0000
Subject: [PATCH 61/62] fix: follow renamed re-exports of items of other crates
 over several modules

---
 crates/analyzer/src/resolution.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 64f93ab..b766370 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -474,8 +474,14 @@ fn match_path_to_external_crate_in_scope(
                         &qualifier_ref_node,
                         seen,
                     );
-                    use_paths.extend(result.0);
-                    item_aliases.extend(result.1);
+                    // The item is known by the target name in the current scope.
+                    for item_path in result.0.into_iter().chain(result.1.into_values()).sorted() {
+                        if item_path.ends_with(&format!("::{target_name}")) {
+                            use_paths.insert(item_path);
+                        } else {
+                            item_aliases.insert(target_name.clone(), item_path);
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 9f82d6490945d934733581a4a3e4b963932bd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:35 +0000
Subject: [PATCH 62/62] fix: resolve imports whose path equals the path they
 are resolved for

---
 crates/analyzer/src/resolution.rs |  4 +---
 crates/ir/src/tree/ast_ext.rs     | 30 +++---------------------------
 2 files changed, 4 insertions(+), 30 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index b766370..93b6703 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -465,9 +465,7 @@ fn match_path_to_external_crate_in_scope(
                     } else {
                         item_aliases.insert(target_name.clone(), resolved_path_str);
                     }
-                } else if resolved_path_str != path {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
+                } else {
                     let result = match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 19dcfcf..0540978 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -165,15 +165,7 @@ where
         let resolve_from_module_use_scope = |seen: &mut HashSet<(String, SyntaxNode)>| {
             let item_name = target_name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, &root_node).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item_inner(&resolved_path, &root_node, seen)
-                    } else {
-                        None
-                    }
-                },
+                |resolved_path| resolve_item_inner(&resolved_path, &root_node, seen),
             )
         };
         let resolve_from_ref_item_use_scope = |seen: &mut HashSet<(String, SyntaxNode)>| {
@@ -181,15 +173,7 @@ where
             if is_module_child {
                 let item_name = target_name.to_string();
                 resolve_item_path_from_use_scope_and_aliases!(item_name, ref_node).find_map(
-                    |resolved_path| {
-                        // Only recurse if the path resolved from use scope and aliases
-                        // is different from the current path argument.
-                        if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item_inner(&resolved_path, ref_node, seen)
-                        } else {
-                            None
-                        }
-                    },
+                    |resolved_path| resolve_item_inner(&resolved_path, ref_node, seen),
                 )
             } else {
                 None
@@ -247,15 +231,7 @@ fn resolve_qualifier_inner(
         let resolve_from_use_scope = || {
             let item_name = name.to_string();
             resolve_item_path_from_use_scope_and_aliases!(item_name, root).find_map(
-                |resolved_path| {
-                    // Only recurse if the path resolved from use scope and aliases
-                    // is different from the current path argument.
-                    if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier_inner(&resolved_path, root, seen)
-                    } else {
-                        None
-                    }
-                },
+                |resolved_path| resolve_qualifier_inner(&resolved_path, root, seen),
             )
         };
         resolve_child().or_else(resolve_from_use_scope)
-- 
2.43.0

