From 8aa36222023ce0ad97ebab2b27aa1e6cfcb89b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 01/24] fix: always pair the two roots of the same kind

The root of a tree can be neither inserted, deleted nor moved, so an edit
script only exists when the two roots correspond. When they shared no
matched descendant and their properties were below the similarity
threshold, or one of them was childless, the root of tree A stayed
unmatched (or was taken by a deeper node of the same kind) and the script
deleted the document root or inserted below a parent that never exists.
---
 cinereus/src/matching.rs | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..d60c7fc 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -402,6 +402,16 @@ fn bottom_up_phase<TA, TB>(
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
+    // The roots correspond to each other by definition: no edit operation can insert, delete or
+    // move a root, so a root left unmatched (or matched below the other root) has no valid script.
+    let (root_a, root_b) = (tree_a.root(), tree_b.root());
+    if !matching.contains_a(root_a)
+        && !matching.contains_b(root_b)
+        && tree_a.kind(root_a) == tree_b.kind(root_b)
+    {
+        matching.add(root_a, root_b);
+    }
+
     // Lazy descendant maps - only compute descendants for nodes we actually compare
     let desc_a = LazyDescendantMap::new(tree_a);
     let desc_b = LazyDescendantMap::new(tree_b);
@@ -539,31 +549,6 @@ fn bottom_up_phase<TA, TB>(
                 "bottom_up pass1: dice match"
             );
             matching.add(a_id, b_id);
-        } else if parent_a.is_none() {
-            // Root node with no Dice match - match by kind alone if there's a unique candidate
-            // This handles the case where trees are structurally different but have same root type
-            let root_candidates: Vec<_> = b_by_kind
-                .get(a_kind)
-                .cloned()
-                .unwrap_or_default()
-                .into_iter()
-                .filter(|&b_id| {
-                    !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
-                        && tree_b.parent(b_id).is_none() // Must also be a root
-                        && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
-                })
-                .collect();
-
-            if let Some(&b_id) = root_candidates.first() {
-                trace!(
-                    a = usize::from(a_id),
-                    a_kind = %a_kind,
-                    b = usize::from(b_id),
-                    "bottom_up pass1: root kind match (fallback)"
-                );
-                matching.add(a_id, b_id);
-            }
         }
     }
 
-- 
2.43.0


From a6dfca76c4bcdb9f28b4ba3ea17c63333862f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 02/24] fix: do not pair an opaque node with a non-opaque
 sibling

Top-down matching accepted any pair of the same kind as soon as one of
the two nodes was opaque. A change inside one opaque element, or a text
edit in a sibling of the same tag, made an untouched opaque element trade
places with an ordinary one: both were moved and the opaque content was
replaced. Only two opaque nodes are paired there now; the rest is left to
the bottom-up phase.
---
 cinereus/src/matching.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index d60c7fc..a05c248 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -234,9 +234,12 @@ fn top_down_phase<TA, TB>(
         } else {
             trace!(a = usize::from(a_id), a_kind = %a_kind, b = usize::from(b_id), b_kind = %b_kind, "top_down: no hash match");
 
-            // If either node is opaque, match the pair but don't recurse into children
-            if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
-                if a_kind == b_kind && !matching.contains_a(a_id) && !matching.contains_b(b_id) {
+            // If either node is opaque, don't recurse into children. Two opaque nodes are matched
+            // here (their content is atomic, so it cannot tell them apart); an opaque and a
+            // non-opaque node are left to the bottom-up phase.
+            let (a_opaque, b_opaque) = (tree_a.is_opaque(a_id), tree_b.is_opaque(b_id));
+            if a_opaque || b_opaque {
+                if a_opaque && b_opaque && a_kind == b_kind {
                     matching.add(a_id, b_id);
                 }
                 continue;
-- 
2.43.0


From 2f42ba33a6a76de8ac5b576a5556805d55cc4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 03/24] hotmeal-wasm: build the live-reload client under
 cfg(hotmeal_sim) too

Off by default; lets a simulator run the reconnect loop and the event
handler natively.
---
 hotmeal-wasm/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..9cf7424 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -22,7 +22,7 @@
 //! of the document.
 
 use hotmeal::{InsertContent, NodeId, StrTendril, parse};
-#[cfg(target_arch = "wasm32")]
+#[cfg(any(target_arch = "wasm32", hotmeal_sim))]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
 use tracing::{debug, trace};
@@ -184,7 +184,10 @@ pub fn apply_patches_postcard_on(
 // Live-reload roam RPC client (wasm32 only)
 // ============================================================================
 
-#[cfg(target_arch = "wasm32")]
+#[cfg(hotmeal_sim)]
+pub use live_reload::start_live_reload;
+
+#[cfg(any(target_arch = "wasm32", hotmeal_sim))]
 mod live_reload {
     use super::*;
     use hotmeal_server::{LiveReloadBrowser, LiveReloadBrowserDispatcher, LiveReloadServiceClient};
-- 
2.43.0


From 59d2f1a70cf58d049aef2c65838809d7509d4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 04/24] fix: inject_into_head must not take <header> for <head>

Without a <head> tag the injection went into the first <header> of the page,
where it is page content rather than part of the head.
---
 hotmeal-server/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..813e4d9 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -234,7 +234,12 @@ impl Default for LiveReloadServer {
 pub fn inject_into_head(html: &str, content: &str) -> String {
     // Find <head> or <head ...> tag (case-insensitive)
     let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
+    // The tag name must end there: `<header>` is not `<head>`.
+    let head_start = lower.match_indices("<head").find_map(|(start, tag)| {
+        let next = lower[start + tag.len()..].chars().next()?;
+        (next.is_ascii_whitespace() || next == '/' || next == '>').then_some(start)
+    });
+    if let Some(head_start) = head_start {
         // Find the closing '>' of the <head> tag
         if let Some(head_end) = html[head_start..].find('>') {
             let insert_pos = head_start + head_end + 1;
-- 
2.43.0


From 90ec9358bfc7289fd45c9b5a9c48cd120abab3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 05/24] fix: diff the attributes of the old body too

The old tree was built with an attribute-less root, so an attribute removed
from <body> stayed on the page.
---
 hotmeal/src/diff.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..d04146a 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,26 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            let attrs = elem
+                .attrs
+                .iter()
+                .map(|(k, v)| (k.clone(), v.clone()))
+                .collect();
+            (elem.tag.clone(), body_node.ns, attrs, Some(body_id))
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From 855c8e86b178fd0942eb5d824b21caf1fee94974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 06/24] fix: announce an opaque change on the element where it
 ends up

OpaqueChanged is applied after all other patches, but its path was computed on
the unpatched tree: with anything moved, inserted or removed around it, the
event fired on another element or not at all.
---
 hotmeal/src/diff.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index d04146a..51446ac 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,23 +1163,16 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
+    let (mut patches, shadow) = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+
+    // The OpaqueChanged patches are applied last, so their paths are those of the
+    // shadow tree once every other patch has been applied.
+    for (a_id, content) in opaque_patches {
+        let path = shadow.compute_path(a_id);
+        patches.push(Patch::OpaqueChanged {
+            path: NodePath(path),
+            content,
+        });
     }
 
     Ok(patches)
@@ -1539,12 +1532,14 @@ impl<'a> ShadowTree<'a> {
 ///
 /// Key insight from Chawathe semantics: INSERT and MOVE do NOT shift siblings.
 /// They DISPLACE whatever is at the target position into a slot for later use.
+///
+/// Also returns the shadow tree as it stands after the last op.
 fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     ops: Vec<EditOp<HtmlTreeTypes<'a>>>,
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
-) -> Result<Vec<Patch<'a>>, DiffError> {
+) -> Result<(Vec<Patch<'a>>, ShadowTree<'a>), DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
 
@@ -1854,7 +1849,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
-    Ok(result)
+    Ok((result, shadow))
 }
 
 /// Extract attributes and children from a node in tree_b.
-- 
2.43.0


From c67243c89d1db6d403c96061423fa92f89de5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 07/24] fix: announce an opaque change that touches only
 attributes

The change was detected by comparing subtree hashes, which leave out
attributes, so a new src or href inside an opaque element was never announced.
---
 hotmeal/src/diff.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 51446ac..443a7aa 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1141,22 +1141,25 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
 
     // After edit script, emit OpaqueChanged for matched opaque pairs with different inner HTML
     let mut opaque_patches = Vec::new();
+    // tree_a is a copy of the old document's body with its own NodeIds; tree_b's NodeIds
+    // are those of the new document (DiffableDocument wraps it).
+    let old_ids: HashMap<NodeId, NodeId> = old
+        .body()
+        .map(|body_id| tree_a.iter().zip(body_id.descendants(&old.arena)).collect())
+        .unwrap_or_default();
     for (a_id, b_id) in matching.pairs() {
         // Check if the node in the new tree is opaque
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // Compare the content itself: the hashes leave out attributes
+        let new_inner = new.serialize_inner_html(b_id);
+        if old_ids
+            .get(&a_id)
+            .is_some_and(|&old_id| old.serialize_inner_html(old_id) == new_inner)
+        {
             continue;
         }
-        // Get the original DOM node IDs for serialization
-        // For tree_a (old), the NodeId corresponds to the cinereus tree, not the Document arena.
-        // We need to serialize from the original documents instead.
-        // tree_b's b_id maps directly to the new Document's arena (DiffableDocument wraps it).
-        // tree_a's a_id maps to the cinereus Tree arena, not the old Document arena.
-        // So we serialize from the new document (which is what we want — the new content).
-        let new_inner = new.serialize_inner_html(b_id);
         opaque_patches.push((
             a_id,
             Stem::Owned(compact_str::CompactString::from(new_inner)),
-- 
2.43.0


From 6a3474ecd7eeb3081dfa5d1597ecfc4af70c31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 08/24] fix: create inserted SVG and MathML elements in their
 own namespace

Both appliers made every inserted element an HTML element, so an <svg> that a
patch inserted was not rendered and its attributes lost their case.
---
 hotmeal-wasm/src/lib.rs | 69 +++++++++++++++++++++++++++++------------
 hotmeal/src/dom.rs      | 63 ++++++++++++++++++++++++++++++++++---
 2 files changed, 107 insertions(+), 25 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 9cf7424..7dc5d3c 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
 #[cfg(any(target_arch = "wasm32", hotmeal_sim))]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -469,15 +469,16 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
+            let ns = child_namespace(&parent_el, tag);
+            let new_node: Node = match create_element_with_attrs(doc, ns, tag, attrs) {
                 Ok(el) => {
                     for child in children {
-                        let child_node = create_insert_content(doc, child)?;
+                        let child_node = create_insert_content(doc, &el, child)?;
                         el.append_child(&child_node)?;
                     }
                     el.into()
                 }
-                Err(_) => create_element_via_html(doc, tag, attrs, children)?,
+                Err(_) => create_element_via_html(doc, ns, tag, attrs, children)?,
             };
 
             insert_at_position(
@@ -721,14 +722,25 @@ fn insert_at_position(
     Ok(())
 }
 
+/// The namespace an element with this tag gets as a child of `parent`.
+fn child_namespace(parent: &Element, tag: &str) -> Namespace {
+    let parent_ns = Namespace::from_url(&parent.namespace_uri().unwrap_or_default());
+    let encoding = parent.get_attribute("encoding");
+    parent_ns.of_child(&parent.local_name(), encoding.as_deref(), tag)
+}
+
 /// Try to create an element with attributes using the DOM API.
 /// Returns Err if any attribute name is invalid for setAttribute.
 fn create_element_with_attrs(
     doc: &Document,
+    ns: Namespace,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
 ) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
+    let el = match ns {
+        Namespace::Html => doc.create_element(tag)?,
+        _ => doc.create_element_ns(Some(ns.url()), tag)?,
+    };
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
@@ -743,13 +755,20 @@ fn create_element_with_attrs(
 /// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
 fn create_element_via_html(
     doc: &Document,
+    ns: Namespace,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
     children: &[InsertContent],
 ) -> Result<Node, JsValue> {
     use web_sys::HtmlTemplateElement;
 
-    let mut html = format!("<{}", tag);
+    // A foreign element needs a foreign parent to be parsed as one
+    let wrapper = match ns {
+        Namespace::Html => "",
+        Namespace::Svg => "<svg>",
+        Namespace::MathMl => "<math>",
+    };
+    let mut html = format!("{}<{}", wrapper, tag);
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
@@ -777,10 +796,13 @@ fn create_element_via_html(
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
     template.set_inner_html(&html);
 
-    template
-        .content()
-        .first_child()
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
+    let first = template.content().first_child();
+    let created = if wrapper.is_empty() {
+        first
+    } else {
+        first.and_then(|w| w.first_child())
+    };
+    created.ok_or_else(|| JsValue::from_str("template content is empty"))
 }
 
 /// Serialize InsertContent to HTML string
@@ -825,23 +847,30 @@ fn serialize_insert_content(out: &mut String, content: &InsertContent) {
     }
 }
 
-/// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+/// Create a DOM node from InsertContent, to be appended to `parent`.
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
-            Ok(el) => {
-                for child in children {
-                    let child_node = create_insert_content(doc, child)?;
-                    el.append_child(&child_node)?;
+        } => {
+            let ns = child_namespace(parent, tag);
+            match create_element_with_attrs(doc, ns, tag, attrs) {
+                Ok(el) => {
+                    for child in children {
+                        let child_node = create_insert_content(doc, &el, child)?;
+                        el.append_child(&child_node)?;
+                    }
+                    Ok(el.into())
                 }
-                Ok(el.into())
+                Err(_) => create_element_via_html(doc, ns, tag, attrs, children),
             }
-            Err(_) => create_element_via_html(doc, tag, attrs, children),
-        },
+        }
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..e84c9c5 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -512,14 +512,16 @@ impl<'a> Document<'a> {
                         .map(|a| (a.name.clone(), a.value.clone()))
                         .collect(),
                 };
+                let (parent, _) = self.get_slot_parent(&at.0.0, slots)?;
+                let ns = self.child_namespace(parent, &tag);
                 let new_node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 // Add children to the new element
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(new_node, child)?;
                     new_node.append(child_node, &mut self.arena);
                 }
 
@@ -779,24 +781,45 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
-    fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
+    /// The namespace an element with this tag gets as a child of `parent`.
+    fn child_namespace(&self, parent: NodeId, tag: &str) -> Namespace {
+        let parent = self.get(parent);
+        match &parent.kind {
+            NodeKind::Element(elem) => {
+                let encoding = elem
+                    .attrs
+                    .iter()
+                    .find(|(name, _)| name.local.as_ref() == "encoding")
+                    .map(|(_, value)| value.as_ref());
+                parent.ns.of_child(&elem.tag, encoding, tag)
+            }
+            _ => Namespace::Html.of_child("", None, tag),
+        }
+    }
+
+    fn create_insert_content(
+        &mut self,
+        parent: NodeId,
+        content: InsertContent<'a>,
+    ) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
                 tag,
                 attrs,
                 children,
             } => {
+                let ns = self.child_namespace(parent, &tag);
                 let elem_data = ElementData {
                     tag,
                     attrs: attrs.into_iter().map(|a| (a.name, a.value)).collect(),
                 };
                 let node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(node, child)?;
                     node.append(child_node, &mut self.arena);
                 }
 
@@ -1007,6 +1030,36 @@ impl Namespace {
             Namespace::MathMl => "http://www.w3.org/1998/Math/MathML",
         }
     }
+
+    /// The namespace the HTML parser gives a `tag` element whose parent is a
+    /// `parent_tag` element in this namespace.
+    ///
+    /// `parent_encoding` is the parent's `encoding` attribute; it only matters for
+    /// MathML `annotation-xml`.
+    pub fn of_child(self, parent_tag: &str, parent_encoding: Option<&str>, tag: &str) -> Self {
+        // Is HTML content expected in the parent?
+        let html = match self {
+            Namespace::Html => true,
+            Namespace::Svg => matches!(parent_tag, "foreignObject" | "desc" | "title"),
+            Namespace::MathMl => match parent_tag {
+                "mi" | "mo" | "mn" | "ms" | "mtext" => !matches!(tag, "mglyph" | "malignmark"),
+                "annotation-xml" => {
+                    tag == "svg"
+                        || parent_encoding.is_some_and(|e| {
+                            e.eq_ignore_ascii_case("text/html")
+                                || e.eq_ignore_ascii_case("application/xhtml+xml")
+                        })
+                }
+                _ => false,
+            },
+        };
+        match tag {
+            _ if !html => self,
+            "svg" => Namespace::Svg,
+            "math" => Namespace::MathMl,
+            _ => Namespace::Html,
+        }
+    }
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-- 
2.43.0


From 4387438dfcd4af3a4ce3a52f54622322ea22d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 09/24] fix: set attributes whose names setAttribute rejects,
 on update as on insert

An element with such an attribute (@click, [prop]) was built by serialising the
whole inserted subtree, which doubled void elements (</br>) and escaped script
and style text; updating such an attribute failed and stopped the patch run.
---
 hotmeal-wasm/src/lib.rs | 170 +++++++++++++---------------------------
 1 file changed, 56 insertions(+), 114 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 7dc5d3c..d4b50b7 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -406,7 +406,7 @@ fn apply_patch(
                 Some(prefix) => format!("{}:{}", prefix, name.local),
                 None => name.local.to_string(),
             };
-            el.set_attribute(&attr_name, value)?;
+            set_attribute(doc, &el, &attr_name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
@@ -470,16 +470,7 @@ fn apply_patch(
                 .clone();
 
             let ns = child_namespace(&parent_el, tag);
-            let new_node: Node = match create_element_with_attrs(doc, ns, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, &el, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    el.into()
-                }
-                Err(_) => create_element_via_html(doc, ns, tag, attrs, children)?,
-            };
+            let new_node: Node = create_element(doc, ns, tag, attrs, children)?.into();
 
             insert_at_position(
                 doc,
@@ -597,7 +588,7 @@ fn apply_patch(
                             Some(v) => v.as_ref().to_string(),
                             None => existing.get(&attr_name).cloned().unwrap_or_default(),
                         };
-                        el.set_attribute(&attr_name, &value)?;
+                        set_attribute(doc, el, &attr_name, &value)?;
                     }
                 }
             }
@@ -729,122 +720,82 @@ fn child_namespace(parent: &Element, tag: &str) -> Namespace {
     parent_ns.of_child(&parent.local_name(), encoding.as_deref(), tag)
 }
 
-/// Try to create an element with attributes using the DOM API.
-/// Returns Err if any attribute name is invalid for setAttribute.
-fn create_element_with_attrs(
+/// Create an element with its attributes and children.
+fn create_element(
     doc: &Document,
     ns: Namespace,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
+    children: &[InsertContent],
 ) -> Result<Element, JsValue> {
-    let el = match ns {
-        Namespace::Html => doc.create_element(tag)?,
-        _ => doc.create_element_ns(Some(ns.url()), tag)?,
+    let created = match ns {
+        Namespace::Html => doc.create_element(tag),
+        _ => doc.create_element_ns(Some(ns.url()), tag),
+    };
+    let el = match created {
+        Ok(el) => el,
+        // The HTML parser accepts tag names that the DOM API rejects. A foreign
+        // element needs a foreign parent to be parsed as one.
+        Err(_) => {
+            let parsed = match ns {
+                Namespace::Html => parse_element(doc, &format!("<{tag}>"))?,
+                Namespace::Svg => parse_element(doc, &format!("<svg><{tag}>"))?,
+                Namespace::MathMl => parse_element(doc, &format!("<math><{tag}>"))?,
+            };
+            match ns {
+                Namespace::Html => parsed,
+                _ => child_element(&parsed)?,
+            }
+        }
     };
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
             None => attr.name.local.to_string(),
         };
-        el.set_attribute(&attr_name, &attr.value)?;
+        set_attribute(doc, &el, &attr_name, &attr.value)?;
+    }
+    for child in children {
+        let child_node = create_insert_content(doc, &el, child)?;
+        el.append_child(&child_node)?;
     }
     Ok(el)
 }
 
-/// Create an element via innerHTML when setAttribute fails.
-/// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
-fn create_element_via_html(
-    doc: &Document,
-    ns: Namespace,
-    tag: &str,
-    attrs: &[hotmeal::AttrPair],
-    children: &[InsertContent],
-) -> Result<Node, JsValue> {
-    use web_sys::HtmlTemplateElement;
-
-    // A foreign element needs a foreign parent to be parsed as one
-    let wrapper = match ns {
-        Namespace::Html => "",
-        Namespace::Svg => "<svg>",
-        Namespace::MathMl => "<math>",
-    };
-    let mut html = format!("{}<{}", wrapper, tag);
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        let escaped_value = attr
-            .value
-            .replace('&', "&amp;")
-            .replace('"', "&quot;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-    }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
+/// Set an attribute, including one with a name that the HTML parser accepts but
+/// the DOM API rejects (`@click`, `[prop]`): such an attribute is made by the parser.
+fn set_attribute(doc: &Document, el: &Element, name: &str, value: &str) -> Result<(), JsValue> {
+    if el.set_attribute(name, value).is_ok() {
+        return Ok(());
     }
+    let escaped_value = value.replace('&', "&amp;").replace('"', "&quot;");
+    let source = parse_element(doc, &format!("<x {name}=\"{escaped_value}\">"))?;
+    let attr = source
+        .attributes()
+        .item(0)
+        .ok_or_else(|| JsValue::from_str(&format!("invalid attribute name {name:?}")))?;
+    source.remove_attribute_node(&attr)?;
+    el.set_attribute_node(&attr)?;
+    Ok(())
+}
 
-    html.push_str(&format!("</{}>", tag));
+/// Parse an HTML fragment and return its first node, an element.
+fn parse_element(doc: &Document, html: &str) -> Result<Element, JsValue> {
+    use web_sys::HtmlTemplateElement;
 
     let template = doc
         .create_element("template")?
         .dyn_into::<HtmlTemplateElement>()
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
-    template.set_inner_html(&html);
-
-    let first = template.content().first_child();
-    let created = if wrapper.is_empty() {
-        first
-    } else {
-        first.and_then(|w| w.first_child())
-    };
-    created.ok_or_else(|| JsValue::from_str("template content is empty"))
+    template.set_inner_html(html);
+    child_element(&template.content())
 }
 
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
-        }
-    }
+/// The first child of a node, which must be an element.
+fn child_element(node: &Node) -> Result<Element, JsValue> {
+    node.first_child()
+        .and_then(|child| child.dyn_into::<Element>().ok())
+        .ok_or_else(|| JsValue::from_str("parsed fragment is not an element"))
 }
 
 /// Create a DOM node from InsertContent, to be appended to `parent`.
@@ -860,16 +811,7 @@ fn create_insert_content(
             children,
         } => {
             let ns = child_namespace(parent, tag);
-            match create_element_with_attrs(doc, ns, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, &el, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    Ok(el.into())
-                }
-                Err(_) => create_element_via_html(doc, ns, tag, attrs, children),
-            }
+            Ok(create_element(doc, ns, tag, attrs, children)?.into())
         }
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
-- 
2.43.0


From 760b19a558e8907d3bd72445e57af6b158ca2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 10/24] fix: never pair an opaque node with a non-opaque one

Subtree hashes leave out attributes, so an opaque and a plain element with the
same content were paired as identical, and the bottom-up phase paired them by
position. The page then kept what a script had put into the formerly opaque
element, or announced plain content as opaque.
---
 cinereus/src/matching.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index a05c248..6329a51 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -236,7 +236,7 @@ fn top_down_phase<TA, TB>(
 
             // If either node is opaque, don't recurse into children. Two opaque nodes are matched
             // here (their content is atomic, so it cannot tell them apart); an opaque and a
-            // non-opaque node are left to the bottom-up phase.
+            // non-opaque node are never a pair.
             let (a_opaque, b_opaque) = (tree_a.is_opaque(a_id), tree_b.is_opaque(b_id));
             if a_opaque || b_opaque {
                 if a_opaque && b_opaque && a_kind == b_kind {
@@ -284,6 +284,11 @@ fn match_subtrees<TA, TB>(
         return;
     }
 
+    // Hashes do not say which nodes are opaque: an opaque and a non-opaque node are never a pair
+    if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
+        return;
+    }
+
     matching.add(a_id, b_id);
 
     // If either node is opaque, match the pair but don't recurse into children
@@ -462,6 +467,7 @@ fn bottom_up_phase<TA, TB>(
         }
 
         let a_kind = tree_a.kind(a_id);
+        let a_opaque = tree_a.is_opaque(a_id);
         let a_props = tree_a.properties(a_id);
         let a_pos = tree_a.position(a_id);
 
@@ -475,7 +481,11 @@ fn bottom_up_phase<TA, TB>(
             // Note: We don't require b to have children - a node can go from having children to empty
             let candidates: Vec<NodeId> = tree_b
                 .children(parent_b)
-                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
+                .filter(|&b_id| {
+                    !matching.contains_b(b_id)
+                        && tree_b.kind(b_id) == a_kind
+                        && tree_b.is_opaque(b_id) == a_opaque
+                })
                 .collect();
 
             // Match by position - don't fall back to first candidate as that can cause
@@ -509,7 +519,7 @@ fn bottom_up_phase<TA, TB>(
 
         let mut best: Option<(NodeId, f64)> = None;
         for b_id in candidates {
-            if matching.contains_b(b_id) {
+            if matching.contains_b(b_id) || tree_b.is_opaque(b_id) != a_opaque {
                 continue;
             }
 
@@ -568,6 +578,7 @@ fn bottom_up_phase<TA, TB>(
         }
 
         let a_kind = tree_a.kind(a_id);
+        let a_opaque = tree_a.is_opaque(a_id);
         let a_hash = tree_a.hash(a_id);
         let a_props = tree_a.properties(a_id);
         let a_pos = tree_a.position(a_id);
@@ -585,6 +596,7 @@ fn bottom_up_phase<TA, TB>(
                     !matching.contains_b(b_id)
                         && tree_b.child_count(b_id) == 0
                         && tree_b.kind(b_id) == a_kind
+                        && tree_b.is_opaque(b_id) == a_opaque
                 })
                 .collect();
 
@@ -619,7 +631,7 @@ fn bottom_up_phase<TA, TB>(
 
             let mut best: Option<NodeId> = None;
             for b_id in candidates {
-                if matching.contains_b(b_id) {
+                if matching.contains_b(b_id) || tree_b.is_opaque(b_id) != a_opaque {
                     continue;
                 }
 
-- 
2.43.0


From 6448ff0344ccae42b979e585679bb0a3baddc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 11/24] fix: move parents before children, so no node is put
 under its own descendant

---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..5cee12f 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -291,7 +291,12 @@ where
 
     // Phase 4: MOVE - matched nodes where parent or position changed
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    // Parents before children, in tree_b: a node that ends up inside one of its
+    // former descendants is moved after that descendant has left it.
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0


From 8fa4412ac68836dfd3619be19bb7d44608edb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 12/24] fix: keep the namespace of attributes of SVG and MathML
 elements

---
 hotmeal-wasm/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index d4b50b7..90e7694 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -406,7 +406,7 @@ fn apply_patch(
                 Some(prefix) => format!("{}:{}", prefix, name.local),
                 None => name.local.to_string(),
             };
-            set_attribute(doc, &el, &attr_name, value)?;
+            set_attribute(doc, &el, &name.ns, &attr_name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
@@ -588,7 +588,7 @@ fn apply_patch(
                             Some(v) => v.as_ref().to_string(),
                             None => existing.get(&attr_name).cloned().unwrap_or_default(),
                         };
-                        set_attribute(doc, el, &attr_name, &value)?;
+                        set_attribute(doc, el, &qual_name.ns, &attr_name, &value)?;
                     }
                 }
             }
@@ -753,7 +753,7 @@ fn create_element(
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
             None => attr.name.local.to_string(),
         };
-        set_attribute(doc, &el, &attr_name, &attr.value)?;
+        set_attribute(doc, &el, &attr.name.ns, &attr_name, &attr.value)?;
     }
     for child in children {
         let child_node = create_insert_content(doc, &el, child)?;
@@ -764,7 +764,17 @@ fn create_element(
 
 /// Set an attribute, including one with a name that the HTML parser accepts but
 /// the DOM API rejects (`@click`, `[prop]`): such an attribute is made by the parser.
-fn set_attribute(doc: &Document, el: &Element, name: &str, value: &str) -> Result<(), JsValue> {
+/// `ns` is the namespace URL of the attribute (`xlink:href` on an SVG element), or empty.
+fn set_attribute(
+    doc: &Document,
+    el: &Element,
+    ns: &str,
+    name: &str,
+    value: &str,
+) -> Result<(), JsValue> {
+    if !ns.is_empty() {
+        return el.set_attribute_ns(Some(ns), name, value);
+    }
     if el.set_attribute(name, value).is_ok() {
         return Ok(());
     }
-- 
2.43.0


From 27902487d30a1c4b530ab7c68940126ff5bd3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 13/24] fix: the root of a document is its first element, not a
 comment before it

---
 hotmeal/src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index e84c9c5..c193da0 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1374,11 +1374,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>); comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From 786ba7585aef1db4e312bf002f13150d32542199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 14/24] fix: do not let an unfinished tag or comment swallow
 the end tags parse() adds

---
 hotmeal/src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index c193da0..0b9c550 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1113,8 +1113,8 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     } else {
         // Input is raw body content - wrap it to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
+        // No end tags: an unterminated tag or comment in the content would swallow them
         wrapped.push_tendril(tendril);
-        wrapped.push_slice("</body></html>");
         wrapped
     };
 
-- 
2.43.0


From 64acb74a387d1dab1dcec3e2d35beefcb4f7348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 15/24] fix: a document with a <head> tag is not raw body
 content

---
 hotmeal/src/dom.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 0b9c550..5ff2ebc 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1106,7 +1106,7 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     let input = if has_doctype {
         tendril.clone()
     } else if has_html_structure(input_ref) {
-        // Input has <html> or <body> tags, just prepend DOCTYPE
+        // Input has <html>, <head> or <body> tags, just prepend DOCTYPE
         let mut with_doctype = StrTendril::from("<!DOCTYPE html>");
         with_doctype.push_tendril(tendril);
         with_doctype
@@ -1154,10 +1154,15 @@ pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
     .one(tendril.clone())
 }
 
-/// Check if input has HTML structure tags (<html> or <body>).
+/// Check if input has HTML structure tags (<html>, <head> or <body>).
 fn has_html_structure(input: &str) -> bool {
     let lower = input.to_ascii_lowercase();
-    lower.contains("<html") || lower.contains("<body")
+    lower.contains("<html")
+        || lower.contains("<body")
+        // The tag name must end there: `<header>` is not `<head>`.
+        || lower.split("<head").skip(1).any(|rest| {
+            rest.starts_with(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>')
+        })
 }
 
 /// Owned element name wrapper
-- 
2.43.0


From 5e66695ccd2490091bf65a38452f1f4961b5aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 16/24] fix: parse() must not take a byte order mark for
 content

---
 hotmeal/src/dom.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 5ff2ebc..edda636 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1094,6 +1094,15 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
 
+    // A byte order mark is not content, and must not hide the DOCTYPE.
+    let bom_len = if input_ref.starts_with('\u{feff}') {
+        3
+    } else {
+        0
+    };
+    let input_ref = &input_ref[bom_len..];
+    let tendril = &tendril.subtendril(bom_len as u32, input_ref.len() as u32);
+
     // Prepend DOCTYPE if not present to ensure no-quirks mode parsing.
     // This matches browser behavior for innerHTML which always uses no-quirks.
     let has_doctype = has_doctype_prefix(input_ref);
-- 
2.43.0


From e3d5b6c42fa560e4e5cbb40d81a06289439893d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 17/24] fix: serialise the content of every raw text element
 raw, and that of SVG elements escaped

---
 hotmeal/src/dom.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index edda636..fca0a91 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -899,8 +899,11 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
+        // Void and raw text elements are HTML; an SVG <style> is an ordinary element
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
         // Check if void element
-        if is_void_element(tag) {
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -908,7 +911,7 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -972,7 +975,10 @@ fn is_void_element(tag: &str) -> bool {
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script" | "style" | "noscript" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From 58c9282bba667594f3a21c805279cabfe8c86778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 18/24] fix: inject_into_head finds only the tag that opens the
 head, and stays behind the doctype

---
 hotmeal-server/src/lib.rs | 89 +++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 23 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 813e4d9..63e1780 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -229,35 +229,78 @@ impl Default for LiveReloadServer {
 
 /// Inject content after the opening `<head>` tag.
 ///
-/// Searches for `<head>` (case-insensitive) and injects `content` immediately after it.
-/// If no `<head>` tag is found, prepends content at the start.
+/// Finds the `<head>` tag that opens the document's head (case-insensitive) and injects
+/// `content` immediately after it. If there is none, injects at the start of the document,
+/// but after the doctype: anything before it would put the browser in quirks mode.
 pub fn inject_into_head(html: &str, content: &str) -> String {
-    // Find <head> or <head ...> tag (case-insensitive)
-    let lower = html.to_ascii_lowercase();
-    // The tag name must end there: `<header>` is not `<head>`.
-    let head_start = lower.match_indices("<head").find_map(|(start, tag)| {
-        let next = lower[start + tag.len()..].chars().next()?;
-        (next.is_ascii_whitespace() || next == '/' || next == '>').then_some(start)
-    });
-    if let Some(head_start) = head_start {
-        // Find the closing '>' of the <head> tag
-        if let Some(head_end) = html[head_start..].find('>') {
-            let insert_pos = head_start + head_end + 1;
-            let mut result = String::with_capacity(html.len() + content.len());
-            result.push_str(&html[..insert_pos]);
-            result.push_str(content);
-            result.push_str(&html[insert_pos..]);
-            return result;
-        }
-    }
-
-    // No <head> tag found — prepend
+    let insert_pos = head_start(html);
     let mut result = String::with_capacity(html.len() + content.len());
+    result.push_str(&html[..insert_pos]);
     result.push_str(content);
-    result.push_str(html);
+    result.push_str(&html[insert_pos..]);
     result
 }
 
+/// The offset at which the content of the document's head starts.
+fn head_start(html: &str) -> usize {
+    // Only comments, the doctype and the <html> tag can come before the <head> tag.
+    let mut pos = if html.starts_with('\u{feff}') { 3 } else { 0 };
+    let mut without_head = pos;
+    loop {
+        let rest = html[pos..].trim_ascii_start();
+        pos = html.len() - rest.len();
+        let end = if rest.starts_with("<!--") {
+            // `<!-->` is a comment too
+            rest[2..].find("-->").map(|end| 2 + end + 3)
+        } else if rest.starts_with("<!") || rest.starts_with("<?") {
+            rest.find('>').map(|end| end + 1)
+        } else if is_start_tag(rest, "html") || is_start_tag(rest, "head") {
+            start_tag_len(rest)
+        } else {
+            None
+        };
+        let Some(end) = end else {
+            return without_head;
+        };
+        pos += end;
+        if is_start_tag(rest, "head") {
+            return pos;
+        }
+        if rest.starts_with("<!") && !rest.starts_with("<!--") {
+            without_head = pos;
+        }
+    }
+}
+
+/// Does `html` start with a `name` start tag (case-insensitive)?
+fn is_start_tag(html: &str, name: &str) -> bool {
+    let Some((tag, rest)) = html.split_at_checked(1 + name.len()) else {
+        return false;
+    };
+    // The tag name must end there: `<header>` is not `<head>`.
+    tag.starts_with('<')
+        && tag[1..].eq_ignore_ascii_case(name)
+        && rest.starts_with(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>')
+}
+
+/// The length of the start tag at the start of `html`. A `>` in a quoted attribute value does
+/// not end it.
+fn start_tag_len(html: &str) -> Option<usize> {
+    let mut quote = None;
+    let mut after_equals = false;
+    for (i, c) in html.char_indices() {
+        match quote {
+            Some(q) if c == q => quote = None,
+            Some(_) => {}
+            None if c == '>' => return Some(i + 1),
+            None if after_equals && (c == '"' || c == '\'') => quote = Some(c),
+            None => {}
+        }
+        after_equals = c == '=' || after_equals && c.is_ascii_whitespace();
+    }
+    None
+}
+
 /// Generate a `<script>` tag that loads hotmeal-wasm and starts live-reload.
 ///
 /// Arguments:
-- 
2.43.0


From 140bed1a4b9b85e0bdc1e305ab9883b170b648e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 19/24] fix: apply patches to the content of a template, where
 the browser keeps its children

---
 hotmeal-wasm/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 90e7694..6f24570 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -673,7 +673,8 @@ fn insert_at_position(
     detach_to_slot: Option<u32>,
     slots: &mut Slots,
 ) -> Result<(), JsValue> {
-    let children = parent.child_nodes();
+    let container = container_of(parent);
+    let children = container.child_nodes();
     let current_len = children.length() as usize;
     let pos = position as u32;
 
@@ -692,7 +693,7 @@ fn insert_at_position(
             existing_text = ?existing.text_content(),
             "replacing existing node"
         );
-        let replaced = parent.replace_child(node, &existing)?;
+        let replaced = container.replace_child(node, &existing)?;
         if let Some(slot) = detach_to_slot {
             trace!(slot, "storing replaced node in slot");
             slots.store(slot, replaced);
@@ -705,9 +706,9 @@ fn insert_at_position(
         );
         for _ in current_len..position {
             let placeholder = doc.create_text_node("");
-            parent.append_child(&placeholder)?;
+            container.append_child(&placeholder)?;
         }
-        parent.append_child(node)?;
+        container.append_child(node)?;
     }
 
     Ok(())
@@ -755,9 +756,10 @@ fn create_element(
         };
         set_attribute(doc, &el, &attr.name.ns, &attr_name, &attr.value)?;
     }
+    let container = container_of(&el);
     for child in children {
         let child_node = create_insert_content(doc, &el, child)?;
-        el.append_child(&child_node)?;
+        container.append_child(&child_node)?;
     }
     Ok(el)
 }
@@ -828,11 +830,20 @@ fn create_insert_content(
     }
 }
 
+/// The node that holds the children of `node`: what stands in a template is not below the
+/// element itself but in its content fragment.
+fn container_of(node: &Node) -> Node {
+    match node.dyn_ref::<web_sys::HtmlTemplateElement>() {
+        Some(template) => template.content().into(),
+        None => node.clone(),
+    }
+}
+
 /// Navigate a relative path within a node (for slot-relative paths).
 fn navigate_within_node(root: &Node, path: &NodePath) -> Result<Node, JsValue> {
     let mut current = root.clone();
     for &idx in &path.0 {
-        let children = current.child_nodes();
+        let children = container_of(&current).child_nodes();
         current = children
             .item(idx)
             .ok_or_else(|| JsValue::from_str(&format!("relative path child {} not found", idx)))?;
@@ -854,7 +865,7 @@ fn find_node(root: &Node, path: &NodePath, slots: &Slots) -> Result<Node, JsValu
 
     let mut current = slot_root;
     for &idx in &path.0[1..] {
-        let children = current.child_nodes();
+        let children = container_of(&current).child_nodes();
         let num_children = children.length();
         trace!(idx, num_children, "navigating to child");
         current = children.item(idx).ok_or_else(|| {
-- 
2.43.0


From 37b66c070a580c3190688aa93dfc5815ac4ca222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 20/24] fix: match and measure deeply nested trees without
 recursion

match_subtrees and Tree::height recursed once per level: diffing two
documents nested some ten thousand levels deep overflowed the stack and
aborted the process.
---
 cinereus/src/matching.rs | 42 +++++++++++++++++++++-------------------
 cinereus/src/tree.rs     | 18 +++++++++++------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 6329a51..1803589 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -267,7 +267,7 @@ fn top_down_phase<TA, TB>(
     }
 }
 
-/// Match two subtrees recursively (when their hashes match).
+/// Match two subtrees node by node (when their hashes match).
 fn match_subtrees<TA, TB>(
     tree_a: &TA,
     tree_b: &TB,
@@ -278,30 +278,32 @@ fn match_subtrees<TA, TB>(
     TA: DiffTree,
     TB: DiffTree<Types = TA::Types>,
 {
-    // Skip if either node is already matched (can happen if a descendant was
-    // matched earlier due to candidate processing order)
-    if matching.contains_a(a_id) || matching.contains_b(b_id) {
-        return;
-    }
+    // An explicit stack: documents can be nested deeper than the call stack allows
+    let mut stack = vec![(a_id, b_id)];
 
-    // Hashes do not say which nodes are opaque: an opaque and a non-opaque node are never a pair
-    if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
-        return;
-    }
+    while let Some((a_id, b_id)) = stack.pop() {
+        // Skip if either node is already matched (can happen if a descendant was
+        // matched earlier due to candidate processing order)
+        if matching.contains_a(a_id) || matching.contains_b(b_id) {
+            continue;
+        }
 
-    matching.add(a_id, b_id);
+        // Hashes do not say which nodes are opaque: an opaque and a non-opaque node are never a pair
+        if tree_a.is_opaque(a_id) != tree_b.is_opaque(b_id) {
+            continue;
+        }
 
-    // If either node is opaque, match the pair but don't recurse into children
-    if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
-        return;
-    }
+        matching.add(a_id, b_id);
 
-    // Match children in order (they should be identical if hashes match)
-    let a_children: Vec<_> = tree_a.children(a_id).collect();
-    let b_children: Vec<_> = tree_b.children(b_id).collect();
+        // If either node is opaque, match the pair but don't descend into children
+        if tree_a.is_opaque(a_id) || tree_b.is_opaque(b_id) {
+            continue;
+        }
 
-    for (a_child, b_child) in a_children.into_iter().zip(b_children.into_iter()) {
-        match_subtrees(tree_a, tree_b, a_child, b_child, matching);
+        // Match children in order (they should be identical if hashes match)
+        let first = stack.len();
+        stack.extend(tree_a.children(a_id).zip(tree_b.children(b_id)));
+        stack[first..].reverse();
     }
 }
 
diff --git a/cinereus/src/tree.rs b/cinereus/src/tree.rs
index 204ee9d..6e979c2 100644
--- a/cinereus/src/tree.rs
+++ b/cinereus/src/tree.rs
@@ -5,7 +5,7 @@
 use core::cell::Cell;
 use core::fmt::{self, Display};
 use core::hash::Hash;
-use indextree::{Arena, NodeId};
+use indextree::{Arena, NodeEdge, NodeId};
 
 thread_local! {
     /// Counter for position() calls - for profiling
@@ -463,12 +463,18 @@ impl<T: TreeTypes> Tree<T> {
 
     /// Get the height of a node (distance to furthest leaf).
     pub fn height(&self, id: NodeId) -> usize {
-        let children: Vec<_> = self.children(id).collect();
-        if children.is_empty() {
-            0
-        } else {
-            1 + children.iter().map(|&c| self.height(c)).max().unwrap_or(0)
+        // Not recursive: documents can be nested deeper than the call stack allows
+        let (mut depth, mut height) = (0, 0);
+        for edge in id.traverse(&self.arena) {
+            match edge {
+                NodeEdge::Start(_) => {
+                    height = height.max(depth);
+                    depth += 1;
+                }
+                NodeEdge::End(_) => depth -= 1,
+            }
         }
+        height
     }
 }
 
-- 
2.43.0


From 3685b99cc11bb4023f27334afdb055e06f535c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 21/24] fix: a DOCTYPE may stand behind a comment

A document that starts with a comment (or <?xml ...?>) and leaves out its
html, head and body tags was taken for raw body content: its DOCTYPE was
dropped and its head elements ended up in the body.
---
 hotmeal/src/dom.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index fca0a91..e0c1ac1 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1068,18 +1068,35 @@ impl Namespace {
     }
 }
 
+/// Whether a DOCTYPE is the first thing in `input` that is not whitespace or a
+/// comment (of which `<?xml ...?>` is one): these may precede the DOCTYPE.
 fn has_doctype_prefix(input: &str) -> bool {
-    let bytes = input.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() && bytes[i].is_ascii_whitespace() {
-        i += 1;
-    }
     let doctype = b"<!doctype";
-    i + doctype.len() <= bytes.len()
-        && bytes[i..i + doctype.len()]
-            .iter()
-            .zip(doctype)
-            .all(|(b, d)| b.to_ascii_lowercase() == *d)
+    let mut rest = input;
+    loop {
+        rest = rest.trim_start_matches(|c: char| c.is_ascii_whitespace());
+        let bytes = rest.as_bytes();
+        if bytes.len() >= doctype.len() && bytes[..doctype.len()].eq_ignore_ascii_case(doctype) {
+            return true;
+        }
+        let end = if rest.starts_with("<!--") {
+            // `<!-->` is a whole comment.
+            let end = rest[2..].find("-->").map(|at| 2 + at + 3);
+            let end_bang = rest[4..].find("--!>").map(|at| 4 + at + 4);
+            match (end, end_bang) {
+                (Some(a), Some(b)) => Some(a.min(b)),
+                (a, b) => a.or(b),
+            }
+        } else if rest.starts_with("<?") || rest.starts_with("<!") {
+            rest.find('>').map(|at| at + 1)
+        } else {
+            None
+        };
+        match end {
+            Some(end) => rest = &rest[end..],
+            None => return false,
+        }
+    }
 }
 
 /// Parse HTML from a StrTendril with zero-copy borrowing.
-- 
2.43.0


From c96b4219e79c17199bb28d28685fb8ad77c31f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 22/24] fix: a body made by patches gets its attributes

Diffing a document without a body against one with a body inserted the
new body's children but dropped its attributes, so the patched document
kept showing a bare <body>.
---
 hotmeal/src/diff.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 443a7aa..3c452da 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1068,6 +1068,22 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
+            // The patched body starts out empty: give it its attributes too
+            if let NodeKind::Element(body) = &new.get(new_body_id).kind
+                && !body.attrs.is_empty()
+            {
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: body
+                        .attrs
+                        .iter()
+                        .map(|(name, value)| PropChange {
+                            name: PropKey::Attr(name.clone()),
+                            value: Some(value.clone()),
+                        })
+                        .collect(),
+                });
+            }
             return Ok(patches);
         }
         (true, false) => {
-- 
2.43.0


From 22d444ab53e207c965e81ce7bfec299beed26f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 23/24] fix: the inside of an opaque element is read in its own
 context

Natively applying OpaqueChanged parsed the new content inside a div, so the
rows of an opaque table (or what an opaque svg draws) were lost.
---
 hotmeal/src/dom.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index e0c1ac1..9af99d7 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -680,20 +680,20 @@ impl<'a> Document<'a> {
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
+                // Parse the new content as what it is, the inside of this very element (rows
+                // in a table, say), and attach it as children
+                let node = self.get(node_id);
+                let context = match &node.kind {
+                    NodeKind::Element(elem) => {
+                        QualName::new(None, node.ns.url().into(), elem.tag.clone())
                     }
+                    _ => QualName::new(None, ns!(html), local_name!("div")),
+                };
+                let content = StrTendril::from(content.as_ref());
+                let inner = parse_inner(&content, context);
+                for child_id in inner.root.children(&inner.arena) {
+                    let cloned = self.clone_subtree_from(&inner, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1165,14 +1165,20 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
 ///
 /// Use this when comparing against browser innerHTML parsing for parity testing.
 pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
+    parse_inner(tendril, QualName::new(None, ns!(html), local_name!("body")))
+}
+
+/// Parse the inside of a `context_name` element (like `element.innerHTML = html`).
+///
+/// The children of the returned document's root are what was inside.
+fn parse_inner(tendril: &StrTendril, context_name: QualName) -> Document<'_> {
     use html5ever::parse_fragment;
     use tendril::TendrilSink;
 
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
 
-    // Parse as fragment with <body> as context, scripting enabled
-    let context_name = QualName::new(None, ns!(html), local_name!("body"));
+    // Parse as fragment in the given context, scripting enabled
     let context_attrs = vec![];
     let scripting_enabled = true;
 
-- 
2.43.0


From 23a8619586b6d57c6744dbb103c282b03bab6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 24/24] fix: a body that becomes opaque, or ceases to be, is
 not patched

An opaque element is never paired with an ordinary one, except the two
bodies: making the body opaque emptied it, and a body that ceased to be
opaque kept what was inside. Patches cannot replace the body, so the diff
fails, and the live-reload server has the page reloaded.
---
 hotmeal/src/diff.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 3c452da..fc66a34 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -148,6 +148,9 @@ pub enum DiffError {
 
     /// node is not a comment
     NotAComment,
+
+    /// patches cannot make the body opaque, or cease to be
+    BodyOpaqueChanged,
 }
 
 /// A path to a node in the DOM tree.
@@ -1104,6 +1107,21 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         }
     }
 
+    // An opaque element and an ordinary one are never the same element: one replaces the other.
+    // The body cannot be replaced, and what is inside it may be unknown.
+    let is_opaque = |doc: &Document<'_>| {
+        doc.body().is_some_and(|id| match &doc.get(id).kind {
+            NodeKind::Element(elem) => elem
+                .attrs
+                .iter()
+                .any(|(name, _)| name.local.as_ref() == "data-hotmeal-opaque"),
+            _ => false,
+        })
+    };
+    if is_opaque(old) != is_opaque(new) {
+        return Err(DiffError::BodyOpaqueChanged);
+    }
+
     // Build cinereus Tree for old (needed for shadow tree mutation)
     let raw_tree_a = build_tree_from_arena(old);
     let tree_a = OpaqueAwareTree(raw_tree_a);
-- 
2.43.0

