From 642d742c241b628c70caf2560ccc0ac1b6146e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 1/2] fix: keep sibling links consistent when a node is
 inserted next to itself

When the destination of an insertion was already adjacent to the inserted
node, the neighbor at the destination could be the inserted node itself. Then
the connection was skipped, leaving stale links (or panicking, when the only
child of a node was re-inserted as its last child).
---
 src/dynamic/hierarchy.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..722b268 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -803,7 +803,7 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
         }
 
         // Detach the nodes.
-        {
+        let (prev_of_range, next_of_range) = {
             let first_nbs = hier
                 .neighbors(self.first)
                 .expect("[consistency] nodes in the range must be alive");
@@ -815,7 +815,23 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
                 .next_sibling();
             // Connect the nodes before and after the range.
             hier.connect_triangle(range_parent, prev_of_range, next_of_range);
-        }
+
+            (prev_of_range, next_of_range)
+        };
+
+        // If the range is already adjacent to the destination, a sibling at the
+        // destination can be a node in the range itself. The real neighbor
+        // after the detachment is then the node at the other side of the range.
+        let prev_sibling = if prev_sibling == Some(self.last) {
+            prev_of_range
+        } else {
+            prev_sibling
+        };
+        let next_sibling = if next_sibling == Some(self.first) {
+            next_of_range
+        } else {
+            next_sibling
+        };
 
         // Rewrite parents in the range.
         {
@@ -837,16 +853,10 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
         }
 
         // Connect the first node in the range to the previous sibling.
-        // If they are identical, no need to update neighbors info.
-        if prev_sibling != Some(self.first) {
-            hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
-        }
+        hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
 
         // Connect the last node in the range to the next sibling.
-        // If they are identical, no need to update neighbors info.
-        if next_sibling != Some(self.last) {
-            hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
-        }
+        hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
 
         Ok(())
     }
-- 
2.43.0


From f3929f47010ff06f95b5a1d213c41161109874e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 2/2] fix: return SiblingsWithoutParent instead of panicking on
 a parentless anchor

Insertion next to a node without a parent is documented to return the error,
but it panicked.
---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 722b268..17bdd91 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -429,7 +430,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +446,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -460,7 +462,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0

