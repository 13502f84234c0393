From 5dc971ef629014526f3f04ad9937bee83bc7d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 01/25] fix: report the marks of markdown text nodes

MarkdownNode::marks always returned None. Adding a mark therefore dropped
the marks the text already had, removing one dropped all of them, and
marked text was accepted in places (code blocks) that do not allow marks.
---
 src/markdown/mod.rs    | 2 +-
 src/markdown/schema.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/markdown/mod.rs b/src/markdown/mod.rs
index 55d5e8e..684ef91 100644
--- a/src/markdown/mod.rs
+++ b/src/markdown/mod.rs
@@ -138,7 +138,7 @@ impl Node<MD> for MarkdownNode {
     }
 
     fn marks(&self) -> Option<&MarkSet<MD>> {
-        None
+        self.text_node().map(|node| &node.marks)
     }
 
     fn mark(&self, set: MarkSet<MD>) -> Self {
diff --git a/src/markdown/schema.rs b/src/markdown/schema.rs
index d224ea8..d61cc84 100644
--- a/src/markdown/schema.rs
+++ b/src/markdown/schema.rs
@@ -61,8 +61,8 @@ impl MarkdownNodeType {
 }
 
 impl NodeType<MD> for MarkdownNodeType {
-    fn allow_marks(self, _marks: &MarkSet<MD>) -> bool {
-        self._allow_marks()
+    fn allow_marks(self, marks: &MarkSet<MD>) -> bool {
+        self._allow_marks() || marks.into_iter().next().is_none()
     }
 
     fn allows_mark_type(self, _mark_type: MarkdownMarkType) -> bool {
-- 
2.43.0


From 96048396f6524f86af64baec9de3aad9a9a208f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 02/25] fix: only remove a mark that is in the set

Removing a link removed any other link, whatever its target. As documented,
a set that does not contain the mark is returned as it is.
---
 src/model/marks.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/marks.rs b/src/model/marks.rs
index 54f128b..0af56f2 100644
--- a/src/model/marks.rs
+++ b/src/model/marks.rs
@@ -48,7 +48,9 @@ impl<S: Schema> MarkSet<S> {
             .binary_search_by_key(&mark.r#type(), Mark::r#type)
         {
             Ok(index) => {
-                self.content.remove(index);
+                if &self.content[index] == mark {
+                    self.content.remove(index);
+                }
             }
             Err(_index) => {}
         }
@@ -137,12 +139,12 @@ pub trait Mark<S: Schema<Mark = Self>>:
             .content
             .binary_search_by_key(&self.r#type(), Mark::r#type)
         {
-            Ok(index) => {
+            Ok(index) if &set.content[index] == self => {
                 let mut owned_set = set.into_owned();
                 owned_set.content.remove(index);
                 Cow::Owned(owned_set)
             }
-            Err(_index) => set,
+            _ => set,
         }
     }
 
-- 
2.43.0


From 0f7a6186fdf5b44bd2749fefd05ab7db6d8675f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 03/25] fix: keep nodes_between and text_between inside the
 range

The offsets passed down to child nodes underflowed for every range that
starts or ends at the boundary of a node, and nodes behind the end of the
range were visited. A leaf without leaf text no longer counts as text, so a
block leaf starts a new block like any other.
---
 src/model/fragment.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/fragment.rs b/src/model/fragment.rs
index 55b9187..72a2254 100644
--- a/src/model/fragment.rs
+++ b/src/model/fragment.rs
@@ -145,12 +145,15 @@ impl<S: Schema> Fragment<S> {
     ) {
         let mut pos = 0;
         for child in &self.inner {
+            if pos >= to {
+                break;
+            }
             let end = pos + child.node_size();
             if end > from && f(child, node_start + pos) {
                 if let Some(content) = child.content() {
                     let start = pos + 1;
                     content.nodes_between(
-                        usize::max(0, from - start),
+                        from.saturating_sub(start),
                         usize::min(content.size(), to - start),
                         f,
                         node_start + start,
@@ -186,15 +189,13 @@ impl<S: Schema> Fragment<S> {
                         (txt.as_str(), 0)
                     };
 
-                    let end = to - pos;
-                    let slice = util::split_at_utf16(rest, end - skip).0;
+                    let end = (to - pos).saturating_sub(skip);
+                    let slice = util::split_at_utf16(rest, end).0;
 
                     text.push_str(slice);
                     separated = block_separator.is_none();
-                } else if node.is_leaf() {
-                    if let Some(leaf_text) = leaf_text {
-                        text.push_str(leaf_text);
-                    }
+                } else if let (true, Some(leaf_text)) = (node.is_leaf(), leaf_text) {
+                    text.push_str(leaf_text);
                     separated = block_separator.is_none();
                 } else if !separated && node.is_block() {
                     text.push_str(block_separator.unwrap_or(""));
-- 
2.43.0


From 1e2d95f299e7fd472008e7b37f797012266fc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 04/25] fix: return an error for a range that ends before it
 starts

Slicing, replacing or applying a step with such a range panicked.
---
 src/model/node.rs             | 8 +++++++-
 src/transform/replace_step.rs | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index 80869ac..ee76dbc 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -127,6 +127,10 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
             return Ok(Slice::default());
         }
 
+        if from > to {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
+
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
 
@@ -163,7 +167,9 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         let to = util::to(&range, self.node_size());
         // FIXME: this max value is my guess, that needs to be tested out
 
-        assert!(to >= from, "replace: {} >= {}", to, from);
+        if from > to {
+            return Err(ResolveErr::RangeError { pos: to }.into());
+        }
 
         let rp_from = self.resolve(from)?;
         let rp_to = self.resolve(to)?;
diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 09aa666..02f5391 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -78,7 +78,9 @@ impl<S: Schema> StepKind<S> for ReplaceAroundStep<S> {
 
 fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {
     let rp_from = doc.resolve(from)?;
-    let mut dist = to - from;
+    let mut dist = to
+        .checked_sub(from)
+        .ok_or(ResolveErr::RangeError { pos: to })?;
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From 936d0df28b34d2e7087c4419843f2ec5e02a2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 05/25] fix: reject slices whose open depths are inconsistent

A slice that is open deeper at the end than the position it goes to, or
deeper than its own content, made replace panic or go on with the wrong
positions. The open depths of a slice come straight out of the JSON of a step.
---
 src/model/replace.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 7986df4..2b96221 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -45,6 +45,25 @@ impl<S: Schema> Slice<S> {
         }
     }
 
+    /// Whether there are nodes of at least the open depths at the sides of the content
+    fn has_open_depths(&self) -> bool {
+        let mut start = Some(&self.content);
+        for _ in 0..self.open_start {
+            start = start.and_then(|c| c.first_child()).and_then(S::Node::content);
+            if start.is_none() {
+                return false;
+            }
+        }
+        let mut end = Some(&self.content);
+        for _ in 0..self.open_end {
+            end = end.and_then(|c| c.last_child()).and_then(S::Node::content);
+            if end.is_none() {
+                return false;
+            }
+        }
+        true
+    }
+
     pub(crate) fn insert_at(
         &self,
         pos: usize,
@@ -140,7 +159,9 @@ pub(crate) fn replace<S: Schema>(
 ) -> Result<S::Node, ReplaceError<S>> {
     if slice.open_start > rp_from.depth {
         Err(ReplaceError::InsertTooDeep)
-    } else if rp_from.depth - slice.open_start != rp_to.depth - slice.open_end {
+    } else if Some(rp_from.depth - slice.open_start) != rp_to.depth.checked_sub(slice.open_end)
+        || !slice.has_open_depths()
+    {
         Err(ReplaceError::InconsistentOpenDepths {
             from_depth: rp_from.depth,
             open_start: slice.open_start,
-- 
2.43.0


From 978b6b77f0bb1577ec47ddebd32aedd54b613dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 06/25] fix: resolve positions in a leaf

Resolving a position in a node without content panicked.
---
 src/model/resolved_pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 00d8fa2..68b76f7 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -200,7 +200,7 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
     }
 
     pub(crate) fn resolve(doc: &'a S::Node, pos: usize) -> Result<Self, ResolveErr> {
-        if pos > doc.content().unwrap().size() {
+        if pos > doc.content_size() {
             return Err(ResolveErr::RangeError { pos });
         }
         let mut path = vec![];
-- 
2.43.0


From 778ee18a4e9ce3abc87f33a4ac5e3fedee47673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 07/25] fix: reject positions in the middle of a character

Such a position resolved, and cutting the text there then panicked.
---
 src/model/resolved_pos.rs |  7 +++++--
 src/model/util.rs         | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/model/resolved_pos.rs b/src/model/resolved_pos.rs
index 68b76f7..79d6ef0 100644
--- a/src/model/resolved_pos.rs
+++ b/src/model/resolved_pos.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Fragment, Node, Schema};
+use super::{fragment::IndexError, util, Fragment, Node, Schema};
 use derivative::Derivative;
 use displaydoc::Display;
 use std::borrow::Cow;
@@ -223,7 +223,10 @@ impl<'a, S: Schema> ResolvedPos<'a, S> {
                 break;
             }
             node = node.child(index).unwrap();
-            if node.is_text() {
+            if let Some(text_node) = node.text_node() {
+                if !util::is_boundary_utf16(text_node.text.as_str(), rem) {
+                    return Err(ResolveErr::RangeError { pos });
+                }
                 break;
             }
             parent_offset = rem - 1;
diff --git a/src/model/util.rs b/src/model/util.rs
index 197cc86..761d807 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -16,6 +16,20 @@ pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     }
 }
 
+/// Whether `index` is a position between two characters (or after the end) of the text
+pub fn is_boundary_utf16(text: &str, mut index: usize) -> bool {
+    for c in text.chars() {
+        if index == 0 {
+            break;
+        }
+        match index.checked_sub(c.len_utf16()) {
+            Some(rest) => index = rest,
+            None => return false,
+        }
+    }
+    true
+}
+
 pub fn split_at_utf16(text: &str, mut index: usize) -> (&str, &str) {
     let mut iter = text.chars();
     while index > 0 {
-- 
2.43.0


From 4aa38a839dd1b7b3c31aaba23c923ca8688ad07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 08/25] fix: check that the gap fits where it is inserted

The node the gap goes into was never passed on, so GapNotFit was unreachable
and a replace-around step could produce an invalid document. Inserting at a
position out of range or in the middle of a character panicked.
---
 src/model/replace.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/model/replace.rs b/src/model/replace.rs
index 2b96221..b699862 100644
--- a/src/model/replace.rs
+++ b/src/model/replace.rs
@@ -1,4 +1,4 @@
-use super::{fragment::IndexError, Index};
+use super::{fragment::IndexError, util, Index};
 use crate::model::{ContentMatchError, Fragment, Node, NodeType, ResolveErr, ResolvedPos, Schema};
 use crate::util::EitherOrBoth;
 use derivative::Derivative;
@@ -69,7 +69,17 @@ impl<S: Schema> Slice<S> {
         pos: usize,
         fragment: Fragment<S>,
     ) -> Result<Option<Slice<S>>, InsertError> {
-        let content = insert_into(&self.content, pos + self.open_start, fragment, None)?;
+        let dist = pos
+            .checked_add(self.open_start)
+            .ok_or(IndexError::OutOfBounds(pos))?;
+        let content = insert_into(
+            &self.content,
+            dist,
+            fragment,
+            self.open_start.saturating_add(1),
+            self.open_end.saturating_add(1),
+            None,
+        )?;
         Ok(content.map(|c| Slice::<S>::new(c, self.open_start, self.open_end)))
     }
 }
@@ -87,12 +97,21 @@ fn insert_into<S: Schema>(
     content: &Fragment<S>,
     dist: usize,
     insert: Fragment<S>,
+    open_start: usize,
+    open_end: usize,
     parent: Option<&S::Node>,
 ) -> Result<Option<Fragment<S>>, InsertError> {
     let Index { index, offset } = content.find_index(dist, false)?;
     let child = content.maybe_child(index);
     if offset == dist || matches!(child, Some(c) if c.is_text()) {
-        if let Some(p) = parent {
+        if let Some(text_node) = child.and_then(Node::text_node) {
+            if !util::is_boundary_utf16(text_node.text.as_str(), dist - offset) {
+                return Err(IndexError::OutOfBounds(dist).into());
+            }
+        }
+
+        // The content of open nodes is checked when the slice is put into the document
+        if let (Some(p), 0, 0) = (parent, open_start, open_end) {
             if !p.can_replace(index, index, Some(&insert), ..)? {
                 return Ok(None);
             }
@@ -110,7 +129,17 @@ fn insert_into<S: Schema>(
             child.content().unwrap_or(Fragment::EMPTY_REF),
             dist - offset - 1,
             insert,
-            None,
+            if index == 0 {
+                open_start.saturating_sub(1)
+            } else {
+                0
+            },
+            if index + 1 == content.child_count() {
+                open_end.saturating_sub(1)
+            } else {
+                0
+            },
+            Some(child),
         )?;
         if let Some(i) = inner {
             Ok(Some(
-- 
2.43.0


From a082d64f9662ca5049f09cf6dbe87dcd99907c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 09/25] fix: do not take the end of a text node for structure

A structural replace starting inside the last text of a node deleted that text,
counting its characters as closing tokens.
---
 src/transform/replace_step.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transform/replace_step.rs b/src/transform/replace_step.rs
index 02f5391..374679f 100644
--- a/src/transform/replace_step.rs
+++ b/src/transform/replace_step.rs
@@ -81,6 +81,9 @@ fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<b
     let mut dist = to
         .checked_sub(from)
         .ok_or(ResolveErr::RangeError { pos: to })?;
+    if dist > 0 && rp_from.text_offset() > 0 {
+        return Ok(true); // the rest of the text node comes first
+    }
     let mut depth = rp_from.depth;
     while dist > 0 && depth > 0 && rp_from.index_after(depth) == rp_from.node(depth).child_count() {
         depth -= 1;
-- 
2.43.0


From f4017197367c9fdc97cd02f25b0af100a68ad5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 10/25] fix: join text nodes after changing their marks

Adding or removing a mark left adjacent text nodes with the same marks when
both were inside the range.
---
 src/transform/mark_step.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/transform/mark_step.rs b/src/transform/mark_step.rs
index 88ce8d0..28b33b7 100644
--- a/src/transform/mark_step.rs
+++ b/src/transform/mark_step.rs
@@ -8,32 +8,34 @@ fn map_fragment_parent<S: Schema, F>(fragment: &Fragment<S>, f: &F, parent: &S::
 where
     F: Fn(S::Node, &S::Node, usize) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for (i, child) in fragment.children().iter().enumerate() {
         let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));
 
         if child.is_inline() {
             child = f(child, parent, i)
         }
-        mapped.push(child)
+        // joins text nodes that now have the same marks
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 fn map_fragment<S: Schema, F>(fragment: &Fragment<S>, f: &F) -> Fragment<S>
 where
     F: Fn(S::Node) -> S::Node,
 {
-    let mut mapped = vec![];
+    let mut mapped = Fragment::new();
     for child in fragment.children() {
         let mut child = child.copy(|c| map_fragment(c, f));
 
         if child.is_inline() {
             child = f(child)
         }
-        mapped.push(child)
+        // joins text nodes that now have the same marks
+        mapped = mapped.append(Fragment::from(vec![child]));
     }
-    Fragment::from(mapped)
+    mapped
 }
 
 /// Adding a mark on some part of the document
-- 
2.43.0


From e88c31e8ee3ebc92198f5d14d7e5f1f5656c648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 11/25] fix: let an open range end at the end of the content

slice and replace took the size of the node itself, two more than the last
valid position, so every range without an end was rejected.
---
 src/model/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/node.rs b/src/model/node.rs
index ee76dbc..4c53791 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -121,7 +121,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         include_parents: bool,
     ) -> Result<Slice<S>, SliceError> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
+        let to = util::to(&range, self.content_size());
 
         if from == to {
             return Ok(Slice::default());
@@ -164,8 +164,7 @@ pub trait Node<S: Schema<Node = Self> + 'static>:
         slice: &Slice<S>,
     ) -> Result<Self, ReplaceError<S>> {
         let from = util::from(&range);
-        let to = util::to(&range, self.node_size());
-        // FIXME: this max value is my guess, that needs to be tested out
+        let to = util::to(&range, self.content_size());
 
         if from > to {
             return Err(ResolveErr::RangeError { pos: to }.into());
-- 
2.43.0


From b8979f85b08b634fdf3e251b923d510fd64d7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 12/25] fix: join the text that markdown is parsed into

The parser reports text in pieces (at escapes, entities and line ends of
code blocks). Each became a text node of its own, so documents had
adjacent text nodes with equal marks, and an empty one in an empty fenced
code block with a blank line.
---
 src/markdown/from_markdown.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 45c9936..bc692d8 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -80,6 +80,20 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    /// Adds text, joining it with the text before it where the marks are the same
+    fn add_text(&mut self, text: &str, marks: MarkSet<MD>) -> Result<(), FromMarkdownError> {
+        if text.is_empty() {
+            return Ok(());
+        }
+        let text = Text::from(text.to_string());
+        let last = self.stack.last_mut().ok_or(FromMarkdownError::StackEmpty)?;
+        match last.0.last_mut() {
+            Some(MarkdownNode::Text(t)) if t.marks == marks => t.text = t.text.join(&text),
+            _ => last.0.push(MarkdownNode::Text(TextNode { text, marks })),
+        }
+        Ok(())
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -204,6 +218,9 @@ impl MarkdownDeserializer {
                         if let Attrs::CodeBlock(attrs) = attrs {
                             if let Some(MarkdownNode::Text(t)) = content.last_mut() {
                                 t.text.remove_last_newline();
+                                if t.text.as_str().is_empty() {
+                                    content.pop();
+                                }
                             }
                             let cb = MarkdownNode::CodeBlock(AttrNode {
                                 attrs,
@@ -289,18 +306,12 @@ impl MarkdownDeserializer {
                     }
                 },
                 Event::Text(text) => {
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks: self.mark_set.clone(),
-                    }))?;
+                    self.add_text(&text, self.mark_set.clone())?;
                 }
                 Event::Code(text) => {
                     let mut marks = self.mark_set.clone();
                     marks.add(&MarkdownMark::Code);
-                    self.add_content(MarkdownNode::Text(TextNode {
-                        text: Text::from(text.to_string()),
-                        marks,
-                    }))?;
+                    self.add_text(&text, marks)?;
                 }
                 Event::Html(_) => {
                     return Err(FromMarkdownError::NotSupported("Html"));
-- 
2.43.0


From 33cc24065bf830296d4ba9356f42193e5633af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 13/25] fix: parse markdown into documents the schema allows

The items of tight lists got their text directly, empty items, items that
start with something other than a paragraph, empty blockquotes and the
empty document got content that the schema does not allow, and steps on
such documents failed. Inline content of list items is put in paragraphs
now, and a paragraph is added where one is required.
---
 src/markdown/from_markdown.rs | 39 +++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index bc692d8..3514f10 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -2,7 +2,7 @@ use super::{
     BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
     MarkdownNode, OrderedListAttrs, MD,
 };
-use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Text, TextNode};
+use crate::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node, Text, TextNode};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
 use std::{
@@ -46,6 +46,37 @@ pub fn from_markdown(text: &str) -> Result<MarkdownNode, FromMarkdownError> {
     d.deserialize(parser)
 }
 
+/// Puts a paragraph into an empty document or blockquote
+fn fill_blocks(mut content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    if content.is_empty() {
+        content.push(MarkdownNode::Paragraph(Block::default()));
+    }
+    content
+}
+
+/// Wraps the inline content of a tight list item in paragraphs and makes it start with one
+fn fill_list_item(content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
+    let mut result: Vec<MarkdownNode> = Vec::with_capacity(content.len());
+    let mut inline = Vec::new();
+    for node in content {
+        if node.is_inline() {
+            inline.push(node);
+            continue;
+        }
+        let needs_paragraph = result.is_empty() && !matches!(node, MarkdownNode::Paragraph(_));
+        if needs_paragraph || !inline.is_empty() {
+            let content = Fragment::from(std::mem::take(&mut inline));
+            result.push(MarkdownNode::Paragraph(Block { content }));
+        }
+        result.push(node);
+    }
+    if result.is_empty() || !inline.is_empty() {
+        let content = Fragment::from(inline);
+        result.push(MarkdownNode::Paragraph(Block { content }));
+    }
+    result
+}
+
 #[derive(Default)]
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
@@ -206,7 +237,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::Blockquote = attrs {
                             let b = MarkdownNode::Blockquote(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(fill_blocks(content)),
                             });
                             self.add_content(b)?;
                         } else {
@@ -257,7 +288,7 @@ impl MarkdownDeserializer {
                         let (content, attrs) = self.pop_stack()?;
                         if let Attrs::ListItem = attrs {
                             let cb = MarkdownNode::ListItem(Block {
-                                content: Fragment::from(content),
+                                content: Fragment::from(fill_list_item(content)),
                             });
                             self.add_content(cb)?;
                         }
@@ -336,7 +367,7 @@ impl MarkdownDeserializer {
         let (content, attrs) = self.pop_stack()?;
         if let Attrs::Doc = attrs {
             Ok(MarkdownNode::Doc(Block {
-                content: Fragment::from(content),
+                content: Fragment::from(fill_blocks(content)),
             }))
         } else {
             Err(FromMarkdownError::MisplacedEndTag("Doc", attrs))
-- 
2.43.0


From bbf51b213e6e8407aa7da694918402c7474694ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 14/25] fix: read the alternative text of images from markdown

The text between the brackets of an image was rejected as children, so
only images without alternative text could be read, and those got their
title for it.
---
 src/markdown/from_markdown.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 3514f10..14f1eca 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -204,7 +204,7 @@ impl MarkdownDeserializer {
                     Tag::Image(_, src, title) => {
                         self.push_stack(Attrs::Image(ImageAttrs {
                             src: src.to_string(),
-                            alt: title.to_string(),
+                            alt: String::new(),
                             title: title.to_string(),
                         }));
                     }
@@ -325,9 +325,12 @@ impl MarkdownDeserializer {
                     }),
                     Tag::Image(_, _, _) => {
                         let (content, attrs) = self.pop_stack()?;
-                        if let Attrs::Image(attrs) = attrs {
-                            if content.len() > 0 {
-                                return Err(FromMarkdownError::NoChildrenAllowed("Image"));
+                        if let Attrs::Image(mut attrs) = attrs {
+                            for node in &content {
+                                match node {
+                                    MarkdownNode::Image(image) => attrs.alt += &image.attrs.alt,
+                                    node => attrs.alt += &node.text_content(),
+                                }
                             }
                             let cb = MarkdownNode::Image(Leaf { attrs });
                             self.add_content(cb)?;
-- 
2.43.0


From b6e3f14f30879242c4148cbc0e78cc2ab1516a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 15/25] fix: reject hard breaks in markdown headings

A heading that spans lines can have a hard break in markdown, but not in
the schema; the result was an invalid document.
---
 src/markdown/from_markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index 14f1eca..dca7a2c 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -357,6 +357,9 @@ impl MarkdownDeserializer {
                     return Err(FromMarkdownError::NotSupported("SoftBreak"));
                 }
                 Event::HardBreak => {
+                    if let Some((_, Attrs::Heading(_))) = self.stack.last() {
+                        return Err(FromMarkdownError::NotSupported("HardBreak in Heading"));
+                    }
                     self.add_content(MarkdownNode::HardBreak)?;
                 }
                 Event::Rule => {
-- 
2.43.0


From eca71856a16239e810e49624b57c34376b6ae3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 16/25] fix: write the title and alternative text of images to
 markdown

The source was written in place of the title and the alternative text was
left out.
---
 src/markdown/to_markdown.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index ae83493..83a0893 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -183,13 +183,23 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-                    self.process_attr_node(index, Fragment::EMPTY_REF, &(), node, |()| {
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
+                    let tag = || {
                         Tag::Image(
                             LinkType::Inline,
                             CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.src.as_str()),
+                            CowStr::Borrowed(attrs.title.as_str()),
                         )
-                    })
+                    };
+                    self.stack.push(Event::End(tag()));
+                    if !attrs.alt.is_empty() {
+                        self.stack
+                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
+                    }
+                    Some(Event::Start(tag()))
                 }
             }
         } else {
-- 
2.43.0


From b0a49d442a9483d7eea567d8b298188180cbbe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 17/25] fix: close marks before a hard break in markdown

Emphasis that ended right after the line end of a hard break is not
emphasis in markdown but literal asterisks.
---
 src/markdown/to_markdown.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 83a0893..0022f1a 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -179,7 +179,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
                 MarkdownNode::HardBreak => {
-                    // todo: inline marks
+                    if let Some(mark) = self.marks.pop() {
+                        self.inner.push((node, index));
+                        return Some(Event::End(mark_tag(mark)));
+                    }
                     Some(Event::HardBreak)
                 }
                 MarkdownNode::Image(Leaf { attrs }) => {
-- 
2.43.0


From e9b42fae0087278a2a0334b3ec30771cab246fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 18/25] fix: close all marks that do not continue in markdown

Only the mark opened last was checked, so an outer mark was continued over
text that does not have it as long as the inner one went on.
---
 src/markdown/to_markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 0022f1a..813d6f6 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -138,7 +138,7 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                 }
                 MarkdownNode::Text(text_node) => {
                     if let Some(last) = self.marks.last().map(|n| *n) {
-                        if !text_node.marks.contains(last) {
+                        if !self.marks.iter().all(|m| text_node.marks.contains(m)) {
                             self.inner.push((node, index));
                             self.marks.pop();
                             return Some(Event::End(mark_tag(last)));
-- 
2.43.0


From 1fb67ef9ea518d0d2842fb190e4737395f549d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 19/25] fix: escape special characters anywhere in markdown
 text

---
 src/markdown/to_markdown.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 813d6f6..d612e87 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -2,7 +2,7 @@ use super::{MarkdownMark, MarkdownNode, MD};
 use crate::model::{AttrNode, Block, Fragment, Leaf, Node};
 use displaydoc::Display;
 use pulldown_cmark::{CodeBlockKind, CowStr, Event, InlineStr, LinkType, Tag};
-use pulldown_cmark_to_cmark::cmark;
+use pulldown_cmark_to_cmark::{cmark, SPECIAL_CHARACTERS};
 use thiserror::Error;
 
 /// Possible error when generating markdown
@@ -56,6 +56,19 @@ fn mark_tag(mark: &MarkdownMark) -> Tag {
 }
 
 impl<'a> MarkdownSerializer<'a> {
+    /// Puts text on the stack. Special characters each start a new event, because
+    /// `cmark` only escapes them there.
+    fn push_text(&mut self, mut text: &'a str) {
+        let is_special = |c: char| SPECIAL_CHARACTERS.iter().any(|s| char::from(*s) == c);
+        while let Some(pos) = text.rfind(is_special) {
+            self.stack.push(Event::Text(CowStr::Borrowed(&text[pos..])));
+            text = &text[..pos];
+        }
+        if !text.is_empty() {
+            self.stack.push(Event::Text(CowStr::Borrowed(text)));
+        }
+    }
+
     fn process_content(
         &mut self,
         index: usize,
@@ -156,8 +169,11 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     }
                     if is_code {
                         Some(Event::Code(CowStr::Borrowed(text_node.text.as_str())))
-                    } else {
+                    } else if let Some((MarkdownNode::CodeBlock(_), _)) = self.inner.last() {
                         Some(Event::Text(CowStr::Borrowed(text_node.text.as_str())))
+                    } else {
+                        self.push_text(text_node.text.as_str());
+                        self.next()
                     }
                 }
                 MarkdownNode::Blockquote(Block { content }) => {
@@ -198,10 +214,7 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                         )
                     };
                     self.stack.push(Event::End(tag()));
-                    if !attrs.alt.is_empty() {
-                        self.stack
-                            .push(Event::Text(CowStr::Borrowed(attrs.alt.as_str())));
-                    }
+                    self.push_text(attrs.alt.as_str());
                     Some(Event::Start(tag()))
                 }
             }
-- 
2.43.0


From 45d3b90c6762c167994ad6caa89b584c624eb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 20/25] fix: keep emphasis after nested emphasis ends in
 markdown

---
 src/markdown/from_markdown.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/markdown/from_markdown.rs b/src/markdown/from_markdown.rs
index dca7a2c..477eb7d 100644
--- a/src/markdown/from_markdown.rs
+++ b/src/markdown/from_markdown.rs
@@ -81,6 +81,8 @@ fn fill_list_item(content: Vec<MarkdownNode>) -> Vec<MarkdownNode> {
 pub struct MarkdownDeserializer {
     stack: Vec<(Vec<MarkdownNode>, Attrs)>,
     mark_set: MarkSet<MD>,
+    /// The marks that are open around the current place, outermost first
+    open_marks: Vec<MarkdownMark>,
 }
 
 impl MarkdownDeserializer {
@@ -125,6 +127,21 @@ impl MarkdownDeserializer {
         Ok(())
     }
 
+    fn start_mark(&mut self, mark: MarkdownMark) {
+        self.mark_set.add(&mark);
+        self.open_marks.push(mark);
+    }
+
+    /// Ends a mark, which stays on the following text if it is open more than once
+    fn end_mark(&mut self, mark: MarkdownMark) {
+        if let Some(index) = self.open_marks.iter().rposition(|m| *m == mark) {
+            self.open_marks.remove(index);
+        }
+        if !self.open_marks.contains(&mark) {
+            self.mark_set.remove(&mark);
+        }
+    }
+
     fn deserialize(&mut self, parser: Parser) -> Result<MarkdownNode, FromMarkdownError> {
         self.push_stack(Attrs::Doc);
         for event in parser {
@@ -185,16 +202,16 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.add(&MarkdownMark::Em);
+                        self.start_mark(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.add(&MarkdownMark::Strong);
+                        self.start_mark(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
                     Tag::Link(_, href, title) => {
-                        self.mark_set.add(&MarkdownMark::Link {
+                        self.start_mark(MarkdownMark::Link {
                             attrs: LinkAttrs {
                                 href: href.to_string(),
                                 title: title.to_string(),
@@ -309,15 +326,15 @@ impl MarkdownDeserializer {
                         return Err(FromMarkdownError::NotSupported("TableCell"));
                     }
                     Tag::Emphasis => {
-                        self.mark_set.remove(&MarkdownMark::Em);
+                        self.end_mark(MarkdownMark::Em);
                     }
                     Tag::Strong => {
-                        self.mark_set.remove(&MarkdownMark::Strong);
+                        self.end_mark(MarkdownMark::Strong);
                     }
                     Tag::Strikethrough => {
                         return Err(FromMarkdownError::NotSupported("Strikethrough"));
                     }
-                    Tag::Link(_, href, title) => self.mark_set.remove(&MarkdownMark::Link {
+                    Tag::Link(_, href, title) => self.end_mark(MarkdownMark::Link {
                         attrs: LinkAttrs {
                             href: href.to_string(),
                             title: title.to_string(),
-- 
2.43.0


From cde3ae0ae440fe280738d5296f5407df473fccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 21/25] fix: write list items that start with another block
 than a paragraph

---
 src/markdown/to_markdown.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index d612e87..c4b13d9 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -42,6 +42,21 @@ impl<'a> MarkdownSerializer<'a> {
     }
 }
 
+/// Whether the content of a list item starts with an empty paragraph that is only there because
+/// the schema requires one: a list item that has other content can not start with a blank paragraph
+/// in markdown, and reading one that starts with another block adds the paragraph again.
+fn has_filler(content: &Fragment<MD>) -> bool {
+    let is_empty = match content.maybe_child(0) {
+        Some(MarkdownNode::Paragraph(Block { content })) => content.child_count() == 0,
+        _ => false,
+    };
+    is_empty
+        && match content.maybe_child(1) {
+            Some(MarkdownNode::Paragraph(_)) | None => false,
+            Some(_) => true,
+        }
+}
+
 fn mark_tag(mark: &MarkdownMark) -> Tag {
     match mark {
         MarkdownMark::Strong => Tag::Strong,
@@ -191,6 +206,10 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     })
                 }
                 MarkdownNode::ListItem(Block { content }) => {
+                    if index == 0 && has_filler(content) {
+                        self.inner.push((node, 1));
+                        return Some(Event::Start(Tag::Item));
+                    }
                     self.process_attr_node(index, content, &(), node, |()| Tag::Item)
                 }
                 MarkdownNode::HorizontalRule => Some(Event::Rule),
-- 
2.43.0


From f78882007af675cfd81bd82ac2eb1a3d9b6b794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 22/25] fix: escape the addresses and titles of links and
 images

---
 src/markdown/to_markdown.rs | 42 +++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index c4b13d9..7314946 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -57,6 +57,40 @@ fn has_filler(content: &Fragment<MD>) -> bool {
         }
 }
 
+/// Puts a backslash before each of the special characters, and before those ampersands
+/// that could start a character reference.
+fn escape<'a>(text: &'a str, special: &[char]) -> CowStr<'a> {
+    let is_special =
+        |pos: usize, c: char| special.contains(&c) || (c == '&' && text[pos..].contains(';'));
+    if !text.char_indices().any(|(pos, c)| is_special(pos, c)) {
+        return CowStr::Borrowed(text);
+    }
+    let mut escaped = String::with_capacity(text.len() + 8);
+    for (pos, c) in text.char_indices() {
+        if is_special(pos, c) {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped.into()
+}
+
+/// The address of a link or an image
+fn destination<'a>(url: &'a str, title: &str) -> CowStr<'a> {
+    let escaped = escape(url, &['\\', '(', ')', '<', '>']);
+    let is_separator = |c: char| c.is_ascii_whitespace() || c.is_ascii_control();
+    if escaped.contains(is_separator) || (escaped.is_empty() && !title.is_empty()) {
+        format!("<{}>", escaped).into()
+    } else {
+        escaped
+    }
+}
+
+/// The title of a link or an image
+fn title(title: &str) -> CowStr {
+    escape(title, &['\\', '"'])
+}
+
 fn mark_tag(mark: &MarkdownMark) -> Tag {
     match mark {
         MarkdownMark::Strong => Tag::Strong,
@@ -64,8 +98,8 @@ fn mark_tag(mark: &MarkdownMark) -> Tag {
         MarkdownMark::Code => unimplemented!("Should not be pushed on the mark stack"),
         MarkdownMark::Link { attrs } => Tag::Link(
             LinkType::Inline,
-            CowStr::Borrowed(attrs.href.as_str()),
-            CowStr::Borrowed(attrs.title.as_str()),
+            destination(&attrs.href, &attrs.title),
+            title(&attrs.title),
         ),
     }
 }
@@ -228,8 +262,8 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     let tag = || {
                         Tag::Image(
                             LinkType::Inline,
-                            CowStr::Borrowed(attrs.src.as_str()),
-                            CowStr::Borrowed(attrs.title.as_str()),
+                            destination(&attrs.src, &attrs.title),
+                            title(&attrs.title),
                         )
                     };
                     self.stack.push(Event::End(tag()));
-- 
2.43.0


From 7d71265807e6909b51f78a599c8174f01f9d8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 23/25] fix: write inline code that contains backticks between
 longer runs of backticks

---
 src/markdown/to_markdown.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index 7314946..a6c80bf 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -75,6 +75,17 @@ fn escape<'a>(text: &'a str, special: &[char]) -> CowStr<'a> {
     escaped.into()
 }
 
+/// The content of a code span, between more backticks than it contains if it contains any
+/// (`cmark` adds one on each side)
+fn code_span(text: &str) -> CowStr {
+    let longest = text.split(|c| c != '`').map(str::len).max().unwrap_or(0);
+    if longest == 0 {
+        return CowStr::Borrowed(text);
+    }
+    let ticks = "`".repeat(longest);
+    format!("{} {} {}", ticks, text, ticks).into()
+}
+
 /// The address of a link or an image
 fn destination<'a>(url: &'a str, title: &str) -> CowStr<'a> {
     let escaped = escape(url, &['\\', '(', ')', '<', '>']);
@@ -217,7 +228,7 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                         }
                     }
                     if is_code {
-                        Some(Event::Code(CowStr::Borrowed(text_node.text.as_str())))
+                        Some(Event::Code(code_span(text_node.text.as_str())))
                     } else if let Some((MarkdownNode::CodeBlock(_), _)) = self.inner.last() {
                         Some(Event::Text(CowStr::Borrowed(text_node.text.as_str())))
                     } else {
-- 
2.43.0


From 4f62e6e414c6e41f8b139db5288a987c743c53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 24/25] fix: escape text that would start a block, a character
 reference or an image, or end a link, when writing markdown

---
 src/markdown/to_markdown.rs | 70 +++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/markdown/to_markdown.rs b/src/markdown/to_markdown.rs
index a6c80bf..9c9dd4b 100644
--- a/src/markdown/to_markdown.rs
+++ b/src/markdown/to_markdown.rs
@@ -75,6 +75,18 @@ fn escape<'a>(text: &'a str, special: &[char]) -> CowStr<'a> {
     escaped.into()
 }
 
+/// The position of the character that makes a line starting with this text look like the start
+/// of a list, a rule, a heading or a code block
+fn block_marker(text: &str) -> Option<usize> {
+    let rest = text.trim_start_matches(|c: char| c.is_ascii_digit());
+    let digits = text.len() - rest.len();
+    match rest.chars().next() {
+        Some('-') | Some('+') | Some('=') | Some('~') if digits == 0 => Some(0),
+        Some('.') | Some(')') if digits > 0 => Some(digits),
+        _ => None,
+    }
+}
+
 /// The content of a code span, between more backticks than it contains if it contains any
 /// (`cmark` adds one on each side)
 fn code_span(text: &str) -> CowStr {
@@ -117,18 +129,54 @@ fn mark_tag(mark: &MarkdownMark) -> Tag {
 
 impl<'a> MarkdownSerializer<'a> {
     /// Puts text on the stack. Special characters each start a new event, because
-    /// `cmark` only escapes them there.
-    fn push_text(&mut self, mut text: &'a str) {
-        let is_special = |c: char| SPECIAL_CHARACTERS.iter().any(|s| char::from(*s) == c);
-        while let Some(pos) = text.rfind(is_special) {
-            self.stack.push(Event::Text(CowStr::Borrowed(&text[pos..])));
-            text = &text[..pos];
+    /// `cmark` only escapes them there. Those that `cmark` does not know get their
+    /// backslash here, as raw text.
+    fn push_text(&mut self, text: &'a str, starts_line: bool, before_link: bool) {
+        let marker = if starts_line {
+            block_marker(text)
+        } else {
+            None
+        };
+        let mut end = text.len();
+        for (pos, c) in text.char_indices().rev() {
+            let is_special = SPECIAL_CHARACTERS.iter().any(|s| char::from(*s) == c);
+            let needs_backslash = match c {
+                ']' => true,
+                '&' => text[pos..].contains(';'),
+                '!' => before_link && pos + 1 == text.len(),
+                _ => marker == Some(pos) && !is_special,
+            };
+            if is_special || needs_backslash {
+                self.stack
+                    .push(Event::Text(CowStr::Borrowed(&text[pos..end])));
+                end = pos;
+            }
+            if needs_backslash {
+                self.stack.push(Event::Html(CowStr::Borrowed("\\")));
+            }
         }
-        if !text.is_empty() {
-            self.stack.push(Event::Text(CowStr::Borrowed(text)));
+        if end > 0 {
+            self.stack.push(Event::Text(CowStr::Borrowed(&text[..end])));
         }
     }
 
+    /// Whether the current inline node is at the start of a line, and whether a link follows it
+    fn surroundings(&self) -> (bool, bool) {
+        let (parent, next) = match self.inner.last() {
+            Some((parent, next)) => (parent, *next),
+            None => return (true, false),
+        };
+        let before = next.checked_sub(2).and_then(|i| parent.maybe_child(i));
+        let starts_line = matches!(before, None | Some(MarkdownNode::HardBreak));
+        let before_link = match parent.maybe_child(next) {
+            Some(MarkdownNode::Text(text_node)) => (&text_node.marks)
+                .into_iter()
+                .any(|mark| matches!(mark, MarkdownMark::Link { .. })),
+            _ => false,
+        };
+        (starts_line, before_link)
+    }
+
     fn process_content(
         &mut self,
         index: usize,
@@ -232,7 +280,9 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                     } else if let Some((MarkdownNode::CodeBlock(_), _)) = self.inner.last() {
                         Some(Event::Text(CowStr::Borrowed(text_node.text.as_str())))
                     } else {
-                        self.push_text(text_node.text.as_str());
+                        let text = text_node.text.as_str();
+                        let (starts_line, before_link) = self.surroundings();
+                        self.push_text(text, starts_line, before_link);
                         self.next()
                     }
                 }
@@ -278,7 +328,7 @@ impl<'a> Iterator for MarkdownSerializer<'a> {
                         )
                     };
                     self.stack.push(Event::End(tag()));
-                    self.push_text(attrs.alt.as_str());
+                    self.push_text(attrs.alt.as_str(), false, false);
                     Some(Event::Start(tag()))
                 }
             }
-- 
2.43.0


From ed83cbf85b0314a1506c4c9b0037b4c7cbf9ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 25/25] fix: ranges that end at or begin after the largest
 number no longer overflow

---
 src/model/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/util.rs b/src/model/util.rs
index 761d807..77a8462 100644
--- a/src/model/util.rs
+++ b/src/model/util.rs
@@ -4,14 +4,14 @@ pub fn from<R: RangeBounds<usize>>(range: &R) -> usize {
     match range.start_bound() {
         Bound::Unbounded => 0,
         Bound::Included(x) => *x,
-        Bound::Excluded(x) => x + 1,
+        Bound::Excluded(x) => x.saturating_add(1),
     }
 }
 
 pub fn to<R: RangeBounds<usize>>(range: &R, max: usize) -> usize {
     match range.end_bound() {
         Bound::Unbounded => max,
-        Bound::Included(x) => x + 1,
+        Bound::Included(x) => x.saturating_add(1),
         Bound::Excluded(x) => *x,
     }
 }
-- 
2.43.0

