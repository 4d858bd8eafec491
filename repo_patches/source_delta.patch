From 80608fee0f7347ab268bd098cdd6a964719a4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:45 +0000
Subject: [PATCH 01/11] fix: moving a node next to its own parent's borrow no
 longer panics

append, prepend, insert_after and insert_before borrowed self before
detaching the moved node, so moving a first/last child of self or a
sibling adjacent to self panicked with BorrowMutError.
---
 src/tree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 4578bbb..c333994 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -238,11 +238,13 @@ impl<T> Node<T> {
     pub fn append(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be appended to itself");
 
+        // Must be done before borrowing `self`, since it can be adjacent to the node.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
@@ -273,10 +275,12 @@ impl<T> Node<T> {
     pub fn prepend(&mut self, new_child: Node<T>) {
         assert!(*self != new_child, "a node cannot be prepended to itself");
 
+        // Must be done before borrowing `self`, since it can be adjacent to the node.
+        new_child.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.detach();
             new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
@@ -305,10 +309,12 @@ impl<T> Node<T> {
     pub fn insert_after(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted after itself");
 
+        // Must be done before borrowing `self`, since it can be adjacent to the node.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
@@ -345,11 +351,13 @@ impl<T> Node<T> {
     pub fn insert_before(&mut self, new_sibling: Node<T>) {
         assert!(*self != new_sibling, "a node cannot be inserted before itself");
 
+        // Must be done before borrowing `self`, since it can be adjacent to the node.
+        new_sibling.0.borrow_mut().detach();
+
         let mut self_borrow = self.0.borrow_mut();
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.detach();
             new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
-- 
2.43.0


From 3b599d92abbb7c40712e1a9b108cbd4bd8cacb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:58 +0000
Subject: [PATCH 02/11] fix: Node::root() returns the root of the tree the node
 is in now

The cached root was not updated by detach() nor for the descendants of a
moved node, and root() panicked when the cached root was already dropped.
---
 src/tree.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index c333994..503e8f9 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -27,7 +27,6 @@ type WeakLink<T> = Weak<RefCell<NodeData<T>>>;
 pub struct Node<T>(Link<T>);
 
 struct NodeData<T> {
-    root: Option<WeakLink<T>>,
     parent: Option<WeakLink<T>>,
     first_child: Option<Link<T>>,
     last_child: Option<WeakLink<T>>,
@@ -76,7 +75,6 @@ impl<T> Node<T> {
     /// Creates a new node from its associated data.
     pub(crate) fn new(data: T) -> Node<T> {
         Node(Rc::new(RefCell::new(NodeData {
-            root: None,
             parent: None,
             first_child: None,
             last_child: None,
@@ -92,12 +90,14 @@ impl<T> Node<T> {
     ///
     /// # Panics
     ///
-    /// Panics if the node is currently mutably borrowed.
+    /// Panics if the node or one of its ancestors is currently mutably borrowed.
     pub fn root(&self) -> Node<T> {
-        match self.0.borrow().root.as_ref() {
-            Some(v) => Node(v.upgrade().unwrap()),
-            None => self.clone(),
+        let mut root = self.clone();
+        while let Some(parent) = root.parent() {
+            root = parent;
         }
+
+        root
     }
 
     /// Returns a parent node, unless this node is the root of the tree.
@@ -245,7 +245,6 @@ impl<T> Node<T> {
         let mut last_child_opt = None;
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             if let Some(last_child_weak) = self_borrow.last_child.take() {
                 if let Some(last_child_strong) = last_child_weak.upgrade() {
@@ -281,7 +280,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_child_borrow = new_child.0.borrow_mut();
-            new_child_borrow.root = Some(self_borrow.root.clone().unwrap_or(Rc::downgrade(&self.0)));
             new_child_borrow.parent = Some(Rc::downgrade(&self.0));
             match self_borrow.first_child.take() {
                 Some(first_child_strong) => {
@@ -315,7 +313,6 @@ impl<T> Node<T> {
         let mut self_borrow = self.0.borrow_mut();
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.previous_sibling = Some(Rc::downgrade(&self.0));
             match self_borrow.next_sibling.take() {
@@ -358,7 +355,6 @@ impl<T> Node<T> {
         let mut previous_sibling_opt = None;
         {
             let mut new_sibling_borrow = new_sibling.0.borrow_mut();
-            new_sibling_borrow.root = self_borrow.root.clone();
             new_sibling_borrow.parent = self_borrow.parent.clone();
             new_sibling_borrow.next_sibling = Some(self.0.clone());
             if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
-- 
2.43.0


From d3db31f3a0b810946b83444158f130505164db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 03/11] fix: remove_node unlinks attributes with non-SVG names
 too

A link stored under a custom attribute name kept pointing at the removed
node, and a removed node stayed in the linked_nodes list of its targets.
---
 src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 0465e58..12aab2b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -12,7 +12,6 @@ use crate::{
     AttributeValue,
     ElementId,
     FilterSvg,
-    FilterSvgAttrs,
     Node,
     NodeData,
     NodeType,
@@ -240,7 +239,7 @@ impl Document {
     fn _remove(&mut self, mut node: Node, ids: &mut Vec<AttributeQName>) {
         ids.clear();
 
-        for (_, attr) in node.attributes().iter().svg() {
+        for attr in node.attributes().iter() {
             match attr.value {
                   AttributeValue::Link(_)
                 | AttributeValue::FuncLink(_)
@@ -260,7 +259,7 @@ impl Document {
         for mut linked in linked_nodes {
             ids.clear();
 
-            for (_, attr) in linked.attributes().iter().svg() {
+            for attr in linked.attributes().iter() {
                 match attr.value {
                       AttributeValue::Link(ref link)
                     | AttributeValue::FuncLink(ref link)
-- 
2.43.0


From 79e847b704827a8a6aa028df779dfbb2998c9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:48 +0000
Subject: [PATCH 04/11] fix: escape attribute values on write

Only quotes were escaped, so '&', '<' and white space other than the space
in an attribute value or an id produced a file that cannot be loaded or
that loads with a different value.
---
 src/writer.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 6d8f784..50496a4 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -197,7 +197,7 @@ fn write_attributes(
     }
 
     if node.has_id() {
-        xml.write_attribute("id", &node.id())
+        write_value("id", xml, |buf| buf.extend_from_slice(node.id().as_bytes()));
     }
 
     let attrs = node.attributes();
@@ -224,18 +224,46 @@ fn write_attributes(
             }
 
         } else {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            write_value(name, xml, |buf| attr.value.write_buf_opt(&opt.values, buf));
         }
     }
 
     // write non-SVG attributes
     for attr in attrs.iter() {
         if let QName::Name(ref name) = attr.name {
-            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));
+            write_value(name, xml, |buf| attr.value.write_buf_opt(&opt.values, buf));
         }
     }
 }
 
+/// Writes an attribute value and escapes everything that would be changed or rejected
+/// by an XML parser. Quotes are escaped by `XmlWriter` itself.
+fn write_value<F>(name: &str, xml: &mut XmlWriter, f: F)
+    where F: FnOnce(&mut Vec<u8>)
+{
+    xml.write_attribute_raw(name, |buf| {
+        let mut i = buf.len();
+        f(buf);
+
+        while i < buf.len() {
+            let s: &[u8] = match buf[i] {
+                b'&' => b"&amp;",
+                b'<' => b"&lt;",
+                b'\t' => b"&#x9;",
+                b'\n' => b"&#xA;",
+                b'\r' => b"&#xD;",
+                _ => {
+                    i += 1;
+                    continue;
+                }
+            };
+
+            buf.splice(i..i+1, s.iter().cloned());
+            i += s.len();
+        }
+    });
+}
+
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-- 
2.43.0


From 2537e5fc02f17536f5fea5d1eb4d583284bcd130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 05/11] fix: do not link from style elements removed by the
 parser

A 'style' element with a link attribute is removed before links are
resolved, so the target listed a removed node in its linked_nodes.
---
 src/parser/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b218a6a..8f46b71 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -663,6 +663,11 @@ fn parse_style_attribute(
 
 fn resolve_links(doc: &Document, links: &mut Links) {
     for d in &mut links.list {
+        // The node was already removed from the document ('style').
+        if d.node.is_detached() {
+            continue;
+        }
+
         match doc.root().descendants().find(|n| *n.id() == d.iri) {
             Some(node) => {
                 let res = if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Stroke {
-- 
2.43.0


From fd3a86e2d1351e2d953f12ad060ce2c0cf96a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:37 +0000
Subject: [PATCH 06/11] fix: escape '&' in text where it would be read as a
 reference

A text node such as '&lt;' or '&#65;' was written as is, so the saved file
loaded with a different text or, with an unknown entity, did not load.
---
 src/writer.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 50496a4..6fc01c3 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -154,7 +154,7 @@ pub(crate) fn write_dom(doc: &Document, opt: &WriteOptions) -> String {
                         xml.write_comment(&node.text());
                     }
                     NodeType::Text => {
-                        xml.write_text(&node.text());
+                        xml.write_text(&escape_references(&node.text()));
                     }
                 }
             }
@@ -264,6 +264,24 @@ fn write_value<F>(name: &str, xml: &mut XmlWriter, f: F)
     });
 }
 
+/// Escapes ampersands that would be read as a start of an entity or a character reference.
+///
+/// `<` is escaped by `XmlWriter` itself.
+fn escape_references(text: &str) -> String {
+    let mut out = String::with_capacity(text.len());
+    let mut parts = text.split('&');
+    out.push_str(parts.next().unwrap_or(""));
+    for part in parts {
+        out.push('&');
+        if part.contains(';') {
+            out.push_str("amp;");
+        }
+        out.push_str(part);
+    }
+
+    out
+}
+
 fn write_escaped(unicode: &str, out: &mut Vec<u8>) {
     use std::io::Write;
 
-- 
2.43.0


From 28b70fe5c531f744a7c69f21d6ae14f6e069a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:31 +0000
Subject: [PATCH 07/11] fix: remove_attribute converts the name once, before
 changing anything

---
 src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 3fbb6fa..4d6c912 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -563,6 +563,11 @@ impl Node {
     pub fn remove_attribute<'a, N>(&mut self, name: N)
         where AttributeQNameRef<'a>: From<N>, N: Copy
     {
+        // Convert the name only once, before changing anything.
+        self.remove_attribute_impl(AttributeQNameRef::from(name));
+    }
+
+    fn remove_attribute_impl(&mut self, name: AttributeQNameRef) {
         if !self.has_attribute(name) {
             return;
         }
-- 
2.43.0


From b4edb89d1c8df79882a9a02d437d5a4d6154a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:00 +0000
Subject: [PATCH 08/11] fix: a style value overrides a link collected before it

---
 src/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8f46b71..7b9d59f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -41,6 +41,13 @@ impl Links {
             node: node.clone(),
         });
     }
+
+    fn remove(&mut self, id: AttributeId, node: &Node) {
+        // Links of a node are always collected one after another.
+        let count = self.list.iter().rev().take_while(|l| l.node == *node).count();
+        let own = self.list.split_off(self.list.len() - count);
+        self.list.extend(own.into_iter().filter(|l| l.attr_id != id));
+    }
 }
 
 pub fn parse_svg(text: &str) -> Result<Document, ParserError> {
@@ -218,7 +225,11 @@ fn parse_svg_attribute_value<'a>(
                     AttributeValue::NumberList(ref list) if list.is_empty() => {}
                     AttributeValue::LengthList(ref list) if list.is_empty() => {}
                     AttributeValue::Path(ref path) if path.is_empty() => {}
-                    _ => node.set_attribute((id, av)),
+                    _ => {
+                        // This value comes later, so it overrides a link that was collected earlier.
+                        links.remove(id, node);
+                        node.set_attribute((id, av));
+                    }
                 }
             }
         }
-- 
2.43.0


From 7994405d98f9603499ad79c315542fb5f19e7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 09/11] fix: white space is processed in text that follows an
 element

---
 src/parser/text.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 03b9d52..2510dd4 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -4,6 +4,7 @@ use crate::{
     AttributeId,
     AttributeValue,
     Document,
+    ElementId,
     Node,
 };
 
@@ -53,17 +54,23 @@ fn _prepare_text(parent: &Node, nodes: &mut Vec<Node>, parent_xmlspace: XmlSpace
     for mut node in parent.children().filter(|n| n.is_element()) {
         let xmlspace = get_xmlspace(&mut node, nodes, parent_xmlspace);
 
-        if let Some(child) = node.first_child() {
-            if child.is_text() {
-                prepare_text_children(&node, nodes, xmlspace);
-                continue;
-            }
+        if has_own_text(&node) {
+            prepare_text_children(&node, nodes, xmlspace);
+            continue;
         }
 
         _prepare_text(&node, nodes, xmlspace);
     }
 }
 
+fn has_own_text(node: &Node) -> bool {
+    match node.tag_id() {
+        // Text can also follow other children in these.
+        Some(ElementId::Text) | Some(ElementId::Tspan) => node.children().any(|n| n.is_text()),
+        _ => node.first_child().map(|n| n.is_text()) == Some(true),
+    }
+}
+
 fn get_xmlspace(node: &mut Node, nodes: &mut Vec<Node>, default: XmlSpace) -> XmlSpace {
     {
         let attrs = node.attributes();
-- 
2.43.0


From c82e77309048c5ce3f2e2dd65181aca4fbe5bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 10/11] fix: the marker shorthand in a style attribute stands
 for the three markers

---
 src/parser/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7b9d59f..d6236d6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -125,7 +125,7 @@ fn process_node(
                 if rule.selector.matches(&XmlNode(xml_node)) {
                     for declaration in &rule.declarations {
                         parse_css_attribute_value(
-                            ro_doc, declaration.name, declaration.value, &mut e, links,
+                            ro_doc, declaration.name, declaration.value, 0, &mut e, links,
                         )?;
                     }
                 }
@@ -245,6 +245,7 @@ fn parse_css_attribute_value<'a>(
     ro_doc: &roxmltree::Document,
     name: &str,
     value: &str,
+    value_pos: usize,
     node: &mut Node,
     links: &mut Links,
 ) -> Result<(), ParserError> {
@@ -256,7 +257,7 @@ fn parse_css_attribute_value<'a>(
         }
 
         let mut parse_attr = |aid| {
-            parse_svg_attribute_value(ro_doc, aid, value, 0, node, links)
+            parse_svg_attribute_value(ro_doc, aid, value, value_pos, node, links)
         };
 
         if id == AttributeId::Marker {
@@ -660,13 +661,9 @@ fn parse_style_attribute(
     links: &mut Links,
 ) -> Result<(), ParserError> {
     for declaration in simplecss::DeclarationTokenizer::from(value) {
-        if let Some(id) = AttributeId::from_str(declaration.name) {
-            // Parse only the presentation attributes.
-            // `transform` isn't a presentation attribute, but should be parsed anyway.
-            if id.is_presentation() || id == AttributeId::Transform {
-                parse_svg_attribute_value(ro_doc, id, declaration.value, value_pos, node, links)?;
-            }
-        }
+        parse_css_attribute_value(
+            ro_doc, declaration.name, declaration.value, value_pos, node, links,
+        )?;
     }
 
     Ok(())
-- 
2.43.0


From 871d97ccdaa850ffa68da4599fbc7d2172615a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:44 +0000
Subject: [PATCH 11/11] fix: white space after text in two runs is removed even
 if there is some before it

---
 src/parser/text.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index 2510dd4..e96c52c 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -227,10 +227,12 @@ fn prepare_text_children(parent: &Node, marked_nodes: &mut Vec<Node>, xmlspace:
             {
                 // Remove leading space of the first text node.
                 node1.text_mut().remove_first();
-            } else if    is_last
-                      && c4 == Some(b' ')
-                      && !node2.text().is_empty()
-                      && xmlspace2 == XmlSpace::Default
+            }
+
+            if     is_last
+                && c4 == Some(b' ')
+                && !node2.text().is_empty()
+                && xmlspace2 == XmlSpace::Default
             {
                 // Remove trailing space of the last text node.
                 // Also check that 'text2' is not empty already.
-- 
2.43.0

