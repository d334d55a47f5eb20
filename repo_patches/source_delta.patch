From b9972c12719698405c4e8254c3915938d9cad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 01/34] fix: unique sibling names for every name and every set
 of siblings

ensure_unique_name panicked on empty, non-ASCII and huge-number names, could
return a name that was already taken (siblings A1, A + A), changed names that
were free, and cut names at the first occurrence of their number. set_name
counted the renamed node itself as one of its siblings.
---
 node_tree_core/src/structs/node_base.rs |  2 +-
 node_tree_core/src/utils/functions.rs   | 79 ++++++-------------------
 2 files changed, 18 insertions(+), 63 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..beb3027 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..60fc408 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -25,84 +25,39 @@
 //! Contains utility functions used throughout the crate.
 //!
 
+use std::collections::HashSet;
+
 use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatus };
 
 
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
-
     // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If no other name is the same as this one, then return the name as is.
+    let taken: HashSet<&str> = relative_to.iter().map(|set_name| set_name.as_str()).collect();
+    if !taken.contains(name) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
+    // If this name does not have a (representable) numerical suffix, then start with the lowest
+    // possible numerical suffix.
+    let bare_name: &str = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    let (name_without_suffix, mut new_value): (&str, u128) = match name[bare_name.len()..].parse::<usize>() {
+        Ok(value) => (bare_name, value as u128),
+        Err(_)    => (name, 0)
     };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
-        }
-    }
 
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
+    // Give it the closest free numerical suffix to the one it currently has (counting upwards).
+    loop {
+        new_value += 1;
 
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
+        let unique_name: String = format!("{}{}", name_without_suffix, new_value);
+        if !taken.contains(unique_name.as_str()) {
+            return unique_name;
         }
-        break;
     }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From 0829ded02daa9c215dc2223c71aa821b63026b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 02/34] fix: never hand a resource id out twice

A freed id was given to the next node or connection, so stale tree pointers and
connection ids silently referred to an unrelated one. from_vec also started at
the last used id, so the first push replaced the last item, and panicked on an
empty list.
---
 node_tree_core/src/structs/rid.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..c441e02 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -33,8 +33,7 @@ pub type RID = u64;
 #[derive(Debug, Clone, Default)]
 pub struct RIDHolder<T> {
     data:    HashMap<RID, T>,
-    highest: RID,
-    vacant:  Vec<RID>
+    highest: RID   // The next RID to be handed out; RIDs are never reused.
 }
 
 impl <T> RIDHolder<T> {
@@ -43,31 +42,23 @@ impl <T> RIDHolder<T> {
     pub fn new() -> Self {
         RIDHolder {
             data:    HashMap::new(),
-            highest: 0,
-            vacant:  Vec::new()
+            highest: 0
         }
     }
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
-            highest,
-            vacant:  Vec::new()
+            highest
         }
     }
 
     /// Adds a new item to the holder, registering it under the returned ID.
     pub fn push(&mut self, item: T) -> RID {
-        let rid: RID = match self.vacant.pop() {
-            Some(id) => id,
-            None     => {
-                let id: RID = self.highest;
-                self.highest += 1;
-                id
-            }
-        };
+        let rid: RID = self.highest;
+        self.highest += 1;
 
         self.data.insert(rid, item);
         rid
@@ -88,13 +79,7 @@ impl <T> RIDHolder<T> {
     /// Removes an item from the collection by the passed RID.
     /// Returns the item.
     pub fn take(&mut self, rid: RID) -> Option<T> {
-        match self.data.remove(&rid) {
-            None       => None,
-            Some(item) => {
-                self.vacant.push(rid);
-                Some(item)
-            }
-        }
+        self.data.remove(&rid)
     }
 
     /// Returns an iter for each of the items.
-- 
2.43.0


From f0cc6065b6b98d79d3fa06999eb992e4c07bbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 03/34] fix: free() terminates every node of the branch and
 does not use freed memory

free() called terminal() on the freed node once per node of its branch instead
of on each of them, looked itself up after having been unregistered (undefined
behaviour as soon as the node had a child), and read its own fields after its
memory had been released.
---
 node_tree_core/src/structs/node_base.rs | 43 ++++++++++++-------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index beb3027..aa1c3eb 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -33,7 +33,7 @@ use super::{
     logger::Log,
     node_path::{ PathSeg, NodePath },
     node_scene::NodeScene,
-    node_tree_base::{ NodeTreeBase, TerminationReason },
+    node_tree_base::TerminationReason,
     tree_pointer::{ TPError, Tp, TpDyn },
     tree_result::TreeResult,
     rid::RID
@@ -596,37 +596,34 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
+        let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        let rid:     RID               = self.rid;
+        let parent:  Option<RID>       = self.parent;
+        let is_root: bool              = self.is_root();
+
+        // Call the terminal function on this node and all of the nodes below it,
         // before removing it and all it's children nodes from the NodeTree.
         for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
-            }
-
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
-
-                        parent.children.remove(child_idx);
-                    }
-                }
+            if let Some(node) = unsafe { &mut *tree }.get_node_mut(node) { // Could have been freed by another node's terminal function.
+                node.terminal(TerminationReason::Freed); // Has to be called externally!
             }
+        }
 
+        // Remove the reference of this node from its parent if it has a parent.
+        // From here on `self` cannot be used, as this node may have already been freed.
+        let freed: Vec<RID> = unsafe { &*tree }.get_node(rid).map(|node| node.top_down(true)).unwrap_or_default();
+        if let Some(parent) = parent.and_then(|parent| unsafe { &mut *tree }.get_node_mut(parent)) {
+            parent.children.retain(|&c_rid| c_rid != rid);
+        }
+        for node in freed {
             unsafe {
-                tree.unregister_node(node);
+                (*tree).unregister_node(node);
             }
         }
 
         // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        if is_root {
+            unsafe { &mut *tree }.terminate();
         }
     }
 
-- 
2.43.0


From 871942798f5125326fa73a2e610941380e7c1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:20 +0000
Subject: [PATCH 04/34] fix: remove_child() keeps the branch connected until
 every terminal() has run

Each node was disconnected and unregistered right after its own terminal(), so
the terminal() of a descendant that posted a log or looked at its parent ran
into unregistered nodes (undefined behaviour), and a terminal() that freed
another node of the branch made the loop use a missing node.
---
 node_tree_core/src/structs/node_base.rs | 46 +++++++++++++++++--------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index aa1c3eb..9284f4f 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -316,31 +316,47 @@ impl NodeBase {
         }
 
         let (
-            child_idx,
+            child_rid,
             child_name,
             connected
-        ): (usize, String, Vec<RID>) = unsafe {
-            child.map(|(idx, child)| (
-                    idx,
+        ): (RID, String, Vec<RID>) = unsafe {
+            child.map(|(_, child)| (
+                    child.rid(),
                     child.name().to_string(),
                     child.top_down(true)
             )).unwrap_unchecked()
         };
 
-        self.children.remove(child_idx);
-        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
-            
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
+        // Call the terminal function on the child and all of the nodes below it while they are all
+        // still connected.
+        let tree:     *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        let self_rid: RID               = self.rid;
+
+        for queued_rid in connected {
+            if let Some(queued_node) = unsafe { &mut *tree }.get_node_mut(queued_rid) { // Could have been freed by another node's terminal function.
+                queued_node.terminal(TerminationReason::RemovedAsChild);
+            }
+        }
 
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
+        // Disconnect all of them. From here on `self` cannot be used, as this node may have been
+        // freed by a terminal function.
+        let removed: Vec<RID> = unsafe { &*tree }.get_node(child_rid).map(|child| child.top_down(true)).unwrap_or_default();
+        if let Some(parent) = unsafe { &mut *tree }.get_node_mut(self_rid) {
+            parent.children.retain(|&c_rid| c_rid != child_rid);
+        }
+        for (idx, queued_rid) in removed.into_iter().enumerate() { unsafe { 
+            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
+            
+            if let Some(mut queued_node) = (*tree).unregister_node(queued_rid) {
+                queued_node.disconnnect_parent();
+                queued_node.disconnnect_owner();
+                queued_node.disconnnect_tree();
+            }
         }}
 
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        if let Some(parent) = unsafe { &*tree }.get_node(self_rid) {
+            parent.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, parent.name())));
+        }
         true 
     }
 
-- 
2.43.0


From a00bb7e640b58f76766c780ddc8d3c49ed892c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 05/34] fix: a frame skips nodes that have been removed before
 or during their turn

---
 node_tree_core/src/structs/node_tree_base.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..68bb09a 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -376,7 +376,10 @@ impl NodeTreeBase {
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+        let node:   &mut dyn Node = match self.get_node_mut(node_rid) {
+            Some(node) => node,
+            None       => return   // This node has been removed by another node during this frame.
+        };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -413,6 +416,12 @@ impl NodeTreeBase {
             TreeStatus::Terminated  => ()
         }
 
+        // This node may have been removed during its own turn.
+        let node: &dyn Node = match self.get_node(node_rid) {
+            Some(node) => node,
+            None       => return
+        };
+
         // Go through each of the children and process them, perpetuating the recursive cycle.
         for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
             self.process_tail(child_node, delta, process_mode);
-- 
2.43.0


From 45d54b42cb321b160f48b95db27f2d7f46c35e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 06/34] fix: start added nodes only once their whole scene is
 in place, skipping removed ones

---
 node_tree_core/src/structs/node_base.rs      | 29 +++++++++++---------
 node_tree_core/src/structs/node_tree_base.rs | 25 ++++++++++++++---
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9284f4f..2a67702 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -201,18 +201,27 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        let mut initialization_history: Vec<RID> = Vec::new();
+
         child.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    initialization_history.push(parent.add_child_from_ptr(node, is_owner, true));
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    initialization_history.push(self.add_child_from_ptr(node, is_owner, true));
                 }
             }
         });
+
+        // Call the `ready()` functions only once all of the nodes were added.
+        if let Some(tree) = self.tree_mut() {
+            unsafe {
+                tree.start_nodes(initialization_history);
+            }
+        }
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
@@ -266,23 +275,17 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
+        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
         // or circumvented..
         if !ignore_ready {
             unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
-
+                self.tree_mut().unwrap_unchecked().start_nodes(vec![child_rid]);
             }
         }
-        
-        // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 68bb09a..016c689 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -231,15 +231,32 @@ impl NodeTreeBase {
         });
 
         // Go through the initialization history backwards and run each node's `ready()` function.
+        unsafe {
+            self.start_nodes(initialization_history);
+        }
+    }
+
+    /// Goes through the given nodes backwards and runs each node's `ready()` function, as well as
+    /// their `loaded()` function if they were just loaded from the disk.
+    ///
+    /// # Safety
+    /// This should only be called once per node, after all of the nodes were added to the tree.
+    pub(super) unsafe fn start_nodes(&mut self, initialization_history: Vec<RID>) {
         for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
+            let node: &mut dyn Node = match self.get_node_mut(rid) {
+                Some(node) => node,
+                None       => continue   // Some other node's `ready()` function removed this one.
+            };
             if node.has_just_loaded() {
                 node.loaded();
-                unsafe {
-                    node.mark_as_final();
+                match self.get_node_mut(rid) {
+                    Some(node) => unsafe { node.mark_as_final() },
+                    None       => continue
                 }
             }
-            node.ready();
+            if let Some(node) = self.get_node_mut(rid) {
+                node.ready();
+            }
         }
     }
 
-- 
2.43.0


From 2cd38448e33cd699f5866a8f2f3b388a242b1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 07/34] fix: the root of a scene loaded from the disk gets its
 loaded() call

---
 node_tree_core/src/structs/node_scene.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..d7179be 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,12 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut new_scene: NodeScene = NodeScene::new_dyn(node);
+                            new_scene.from_disk  = true;
+
+                    node_scene = Some(new_scene);
+                }
             }
         }
 
@@ -359,7 +364,6 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
-        iterator(None, self.this, self.is_owner);
 
         // Recursive function to traverse the tree
         fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
@@ -392,6 +396,7 @@ impl Instanceable for NodeScene {
                 self_mut.mark_as_loaded();
             }
         }
+        iterator(None, self_this, self.is_owner);
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From 8209945b7383da55f36c91618210199161858871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 08/34] fix: loading a scene restores its root's ownership

---
 node_tree_core/src/structs/node_scene.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index d7179be..cc16150 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -174,6 +174,7 @@ impl NodeScene {
                 None => {
                     let mut new_scene: NodeScene = NodeScene::new_dyn(node);
                             new_scene.from_disk  = true;
+                            new_scene.is_owner   = is_owner;
 
                     node_scene = Some(new_scene);
                 }
-- 
2.43.0


From c6e1e938e15f9a039f54cb99621ed68671079f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 09/34] fix: give every node of a saved scene an id of its own

---
 node_tree_core/src/structs/node_scene.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index cc16150..c153f54 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -317,18 +317,18 @@ impl NodeScene {
         &self.children
     }
 
-    /// Updates the internal RIDs.
+    /// Updates the internal RIDs in order, where the root is given the counter's value.
+    /// Returns the last RID that was given.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
-        for child in &self.children {
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
+        unsafe { (&mut *self.this).set_rid(counter) };
 
-            // Update the counter and set it as this child's rid
-            counter += 1;
-            unsafe { (&mut *child.this).set_rid(counter) };
+        for child in &self.children {
 
-            // Recursively traverse the child's children
-            child.update_internal(counter);
+            // Update the counter and recursively traverse the child and its children.
+            counter = child.update_internal(counter + 1);
         }
+        counter
     }
 }
 
-- 
2.43.0


From add16fe1430076327601b7caef0335119d1899f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 10/34] fix: load nodes whose names contain underscores

---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index c153f54..1e2f739 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From 6ee1db6766e0745e1eaa6dcbc37d5679b2713f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 11/34] fix: load characters outside of ASCII

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..65ac4d7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From 464e1dd9c3d41d24f8badf0b0c8d2db0d4b1038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 12/34] fix: load arrays of any element type without zeroed
 elements

---
 node_tree_core/src/traits/exportable.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 65ac4d7..2a59a7b 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,7 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                arr.into_iter().map(|element| T::from_value(element)).collect::<Option<Vec<T>>>()?.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From 6bcc0d8c50db5c730abc7b4c16042ef769f42394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 13/34] fix: refuse integers that do not fit the field's type
 instead of wrapping them

---
 node_tree_core/src/traits/exportable.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 2a59a7b..04b6ab5 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -120,7 +120,7 @@ impl Exportable for u8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u8),
+            toml::Value::Integer(i) => u8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -132,7 +132,7 @@ impl Exportable for u16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u16),
+            toml::Value::Integer(i) => u16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -144,7 +144,7 @@ impl Exportable for u32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u32),
+            toml::Value::Integer(i) => u32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -168,7 +168,7 @@ impl Exportable for i8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i8),
+            toml::Value::Integer(i) => i8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -180,7 +180,7 @@ impl Exportable for i16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i16),
+            toml::Value::Integer(i) => i16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -192,7 +192,7 @@ impl Exportable for i32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i32),
+            toml::Value::Integer(i) => i32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
-- 
2.43.0


From 96a9d17d01f83fc92a902a87e5c44600ff22ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 14/34] fix: save durations exactly and refuse impossible ones

---
 node_tree_core/src/traits/exportable.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 04b6ab5..ec5e825 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -314,11 +314,21 @@ impl Exportable for net::IpAddr {
 
 impl Exportable for time::Duration {
     fn to_value(&self) -> toml::Value {
-        self.as_secs_f64().to_value()
+        toml::InlineTable::from_iter(vec![
+            ("secs".to_string(),  self.as_secs().to_value()),
+            ("nanos".to_string(), self.subsec_nanos().to_value())
+        ]).into()
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        match value {
+            toml::Value::InlineTable(mut table) => {
+                let secs:  u64 = u64::from_value(table.remove("secs")?)?;
+                let nanos: u32 = u32::from_value(table.remove("nanos")?).filter(|nanos| *nanos < 1_000_000_000)?;
+                Some(time::Duration::new(secs, nanos))
+            },
+            _ => time::Duration::try_from_secs_f64(value.as_float()?).ok() // Scenes saved by prior versions.
+        }
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From 771116703c8ec2ff5af139bedd8bebb5e16247d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 15/34] fix: converting a path to text and back keeps absolute
 and empty paths

---
 node_tree_core/src/structs/node_path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..9a12b99 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -148,7 +148,7 @@ impl NodePath {
     /// ```
     pub fn from_str(str: &str) -> NodePath {
         let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
+        let     abs:  bool              = str.starts_with('/');
         
         if abs {
             path.pop_front();
@@ -164,11 +164,14 @@ impl NodePath {
 
     /// Converts the path to a string, consuming it.
     pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
+        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
         while let Some(segment) = self.pop_front() {
-            out += &(segment.to_string() + "/");
+            out += &segment.to_string();
+            if !self.path.is_empty() {
+                out += "/";
+            }
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+        out
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From e1c53b02941ad77e726482de323dcffa5c17ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 16/34] fix: a node's absolute path is absolute

---
 node_tree_core/src/structs/logger.rs    | 2 +-
 node_tree_core/src/structs/node_base.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index e4db6c3..cea7e0e 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -201,7 +201,7 @@ impl Logger {
         let node_tree: &NodeTreeBase = unsafe { &*node_tree };
         let system:    SystemCall    = {
             match node_tree.get_node_identity(calling) {
-                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
+                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                 None                                 => unimplemented!()
             }
diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 2a67702..ad392ce 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -556,7 +556,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
-- 
2.43.0


From ad64a0a49eb3c18601292e4c0d6beb3248c956c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 17/34] fix: looking up a freed root does not read freed memory

---
 node_tree_core/src/structs/node_path.rs      | 9 +++++----
 node_tree_core/src/structs/node_tree_base.rs | 9 ++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 9a12b99..827f96d 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -46,7 +46,7 @@
 use std::fmt;
 use std::collections::VecDeque;
 
-use crate::traits::node_getter::NodeGetter;
+use crate::traits::{ node::Node, node_getter::NodeGetter };
 use super::{ node_tree_base::NodeTreeBase, rid::RID };
 
 
@@ -213,11 +213,12 @@ impl NodeGetter for NodePath {
             return tree.get_node(caller?)?.get_node_raw(self.clone());
         }
         
-        let mut absolute_path: NodePath = self.clone();
-        if Some(tree.root().name()) != absolute_path.pop_front_as_string().as_deref() {
+        let     root:          &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?; // The root may have been freed.
+        let mut absolute_path: NodePath  = self.clone();
+        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
             return None;
         }
-        tree.root().get_node_raw(absolute_path)
+        root.get_node_raw(absolute_path)
     }
 }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 016c689..5c75952 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -162,7 +162,7 @@ pub struct NodeTreeBase {
 impl NodeTreeBase {
 
     /// The RID for the root node.
-    const ROOT_RID: RID = 0;
+    pub(super) const ROOT_RID: RID = 0;
 
     /// Creates an empty `NodeTreeBase`, ready for initialization.
     unsafe fn new(logger_verbosity: LoggerVerbosity) -> Self {
@@ -296,16 +296,19 @@ impl NodeTreeBase {
     }
 
     /// Gets a reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the Root node was freed.
     pub fn root(&self) -> &dyn Node {
         unsafe {
-            &**self.nodes.retrieve(Self::ROOT_RID).unwrap_unchecked()
+            &**self.nodes.retrieve(Self::ROOT_RID).expect("The root node was freed")
         }
     }
     
     /// Gets a mutable reference to the Root node.
     pub fn root_mut(&mut self) -> &mut dyn Node {
         unsafe {
-            &mut **self.nodes.modify(Self::ROOT_RID).unwrap_unchecked()
+            &mut **self.nodes.modify(Self::ROOT_RID).expect("The root node was freed")
         }
     }
 
-- 
2.43.0


From 037d68fc848e6daed3d75c974ae2a48ced174094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 18/34] fix: a node renamed as a singleton is no longer found
 under its old name

---
 node_tree_core/src/structs/node_tree_base.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 5c75952..145eaf5 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -506,6 +506,11 @@ impl NodeTreeBase {
             return Some(false);
         }
 
+        // The name that this node may have had so far no longer refers to it.
+        if let Some(NodeIdentity::UniqueName(old_name)) = self.identity.get(&rid) {
+            self.singletons.remove(old_name);
+        }
+
         self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));
         self.singletons.insert(name, rid);
         Some(true)
-- 
2.43.0


From 7758a7b9a3f572f397eabe654184d12e5b7d9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 19/34] fix: signals can be used by their own listeners while
 they are being emitted

---
 node_tree_core/src/structs/signals.rs | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..9ed9c16 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,29 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
-
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
-            unsafe {
-                (*hook)(parameters);
-            }
+        let hooks:      MutableArc<EventHandler<T>> = self.hooks.clone(); // A hook could free the node that owns this signal.
+        let parameters: &T                          = parameters.as_inner();
+
+        // The hooks cannot be locked while they are being called, since they may emit, connect to,
+        // or disconnect from this signal themselves.
+        let connected: Vec<RID> = hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
+        for rid in connected {
+            let mut handler: MutexGuard<EventHandler<T>> = hooks.lock().unwrap();
+            
+            let (hook, mode) = match handler.retrieve(rid) {
+                Some(&connection) => connection,
+                None              => continue // Disconnected by one of the prior hooks.
+            };
 
             match mode {
                 ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
+                ConnectionType::Once              => { handler.take(rid); }
             }
-        }
+            drop(handler);
 
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
+            unsafe {
+                (*hook)(parameters);
+            }
         }
     }
 
-- 
2.43.0


From 9cc60de34ba836395bd027513b2940d77447a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:44 +0000
Subject: [PATCH 20/34] fix: connect! returns the id of the connection as
 documented

---
 node_tree_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..bcb701f 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -689,7 +689,7 @@ pub fn connect(input: TokenStream) -> TokenStream {
             let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
-            });
+            })
         }
     })
 }
-- 
2.43.0


From e9fdb2fec41d30d78d07b3dc6cfa7533056f7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 21/34] fix: a failed unwrap or access on behalf of a freed
 node logs, terminates and panics

---
 node_tree_core/src/structs/logger.rs         | 7 +++++--
 node_tree_core/src/structs/node_tree_base.rs | 8 ++++++++
 node_tree_core/src/structs/tree_option.rs    | 3 +--
 node_tree_core/src/structs/tree_pointer.rs   | 5 ++---
 node_tree_core/src/structs/tree_result.rs    | 3 +--
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index cea7e0e..4d760ee 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -203,7 +203,7 @@ impl Logger {
             match node_tree.get_node_identity(calling) {
                 Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
-                None                                 => unimplemented!()
+                None                                 => SystemCall::Named("Freed Node".to_string())
             }
         };
 
@@ -212,7 +212,10 @@ impl Logger {
         let time:   String = self.post_manual(system, log);
 
         if panic {
-            let node_tree_visual: String = draw_tree(node_tree, calling, 6, 6);
+            let node_tree_visual: String = match node_tree.get_node(calling) {
+                Some(_) => draw_tree(node_tree, calling, 6, 6),
+                None    => "[REPORT START]\nThe calling node has been removed from the tree.\n\n[REPORT END]".to_string()
+            };
             println!("
 {}{}
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 145eaf5..4c9e7df 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -550,6 +550,14 @@ impl NodeTreeBase {
         }
     }
 
+    /// Posts a panic to the log on behalf of a node, which may have already been removed from the tree.
+    pub(super) fn post_failure(&mut self, calling: RID, msg: &str) {
+        match self.get_node(calling) {
+            Some(node) => node.post(Log::Panic(msg)),
+            None       => self.post(calling, Log::Panic(msg))
+        }
+    }
+
     /// Gets the current log as a string.
     pub fn get_log(&self) -> &str {
         self.logger.to_str()
diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..a743819 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -34,7 +34,6 @@ use std::option::{ Iter, IterMut };
 
 use crate::traits::node_tree::NodeTree;
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_result::TreeResult;
 
 
@@ -484,7 +483,7 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        unsafe { &mut *self.tree }.post_failure(self.owner, msg);
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..5b5351b 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -35,7 +35,6 @@ use portable_intertrait::cast::*;
 
 use crate::traits::{ node::Node, node_tree::NodeTree };
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_result::TreeResult;
 
 
@@ -248,7 +247,7 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{err:?}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +461,7 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{err}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..3cf9af4 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -31,7 +31,6 @@ use std::result::{ Iter, IterMut };
 
 use crate::traits::node_tree::NodeTree;
 use super::rid::RID;
-use super::logger::Log;
 use super::tree_option::TreeOption;
 
 
@@ -435,7 +434,7 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        unsafe { &mut *self.tree }.post_failure(self.owner, &format!("{msg}: {error:?}"));
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From d3dd9fdc2dc719238bfb5de35a5e89311c21e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:37 +0000
Subject: [PATCH 22/34] fix: is_of() answers for the node and not for the
 pointer

---
 node_tree_core/src/structs/tree_pointer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 5b5351b..994e3af 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -384,10 +384,7 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        self.cast::<T>().is_ok()
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From ca9cbcbff9f4693c1d3a7a06e92c4bf41a305f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 23/34] fix: the documented pause() and unpause() functions
 exist

---
 node_tree_core/src/structs/node_tree_base.rs | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 4c9e7df..de6e89f 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -388,6 +388,29 @@ impl NodeTreeBase {
         }
     }
 
+    /// Pauses the tree, which affects the nodes according to their process modes.
+    /// # Note
+    /// This does nothing if the tree is terminating or has terminated.
+    pub fn pause(&mut self) {
+        self.set_process(TreeProcess::Paused);
+    }
+
+    /// Unpauses the tree, which affects the nodes according to their process modes.
+    /// # Note
+    /// This does nothing if the tree is terminating or has terminated.
+    pub fn unpause(&mut self) {
+        self.set_process(TreeProcess::Running);
+    }
+
+    /// Sets how an active tree processes its nodes.
+    fn set_process(&mut self, process: TreeProcess) {
+        match self.status {
+            TreeStatus::Process(_)           => self.status = TreeStatus::Process(process),
+            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::QueuedTermination(process),
+            _                                => ()
+        }
+    }
+
     /// Immediately terminates the program without running any termination behaviours.
     pub fn terminate(&mut self) {
         self.status = TreeStatus::Terminated;
-- 
2.43.0


From 2d5bc2b81fdcb76255d89a1049a775ccd5fbb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:36 +0000
Subject: [PATCH 24/34] fix: default fields can be of generic types

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index bcb701f..30ae211 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -539,7 +539,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
             }, 
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
@@ -551,7 +551,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From 2e209fc144e730d53bc5afc84b4d5cb93bb30323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 25/34] fix: a node setting in a scene can be any expression

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..427aa36 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -34,7 +34,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 4851a85643b58a2ff749fece3a773d1de0b47e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 26/34] fix: refuse integers that do not fit a glam vector's
 components

---
 node_tree_core/src/traits/glam_exportables.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index 639f68f..d0fdda4 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -70,7 +70,7 @@ impl Exportable for g_u8::U8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec2(x.as_integer()? as u8, y.as_integer()? as u8));
+                        return Some(g_u8::u8vec2(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -87,7 +87,7 @@ impl Exportable for g_u8::U8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec3(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8));
+                        return Some(g_u8::u8vec3(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -104,7 +104,7 @@ impl Exportable for g_u8::U8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec4(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8, w.as_integer()? as u8));
+                        return Some(g_u8::u8vec4(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?, u8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -122,7 +122,7 @@ impl Exportable for g_u16::U16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec2(x.as_integer()? as u16, y.as_integer()? as u16));
+                        return Some(g_u16::u16vec2(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -139,7 +139,7 @@ impl Exportable for g_u16::U16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec3(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16));
+                        return Some(g_u16::u16vec3(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -156,7 +156,7 @@ impl Exportable for g_u16::U16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec4(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16, w.as_integer()? as u16));
+                        return Some(g_u16::u16vec4(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?, u16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -174,7 +174,7 @@ impl Exportable for g_u32::UVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec2(x.as_integer()? as u32, y.as_integer()? as u32));
+                        return Some(g_u32::uvec2(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -191,7 +191,7 @@ impl Exportable for g_u32::UVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec3(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32));
+                        return Some(g_u32::uvec3(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -208,7 +208,7 @@ impl Exportable for g_u32::UVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec4(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32, w.as_integer()? as u32));
+                        return Some(g_u32::uvec4(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?, u32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -278,7 +278,7 @@ impl Exportable for g_i8::I8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec2(x.as_integer()? as i8, y.as_integer()? as i8));
+                        return Some(g_i8::i8vec2(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -295,7 +295,7 @@ impl Exportable for g_i8::I8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec3(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8));
+                        return Some(g_i8::i8vec3(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -312,7 +312,7 @@ impl Exportable for g_i8::I8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec4(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8, w.as_integer()? as i8));
+                        return Some(g_i8::i8vec4(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?, i8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -330,7 +330,7 @@ impl Exportable for g_i16::I16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec2(x.as_integer()? as i16, y.as_integer()? as i16));
+                        return Some(g_i16::i16vec2(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -347,7 +347,7 @@ impl Exportable for g_i16::I16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec3(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16));
+                        return Some(g_i16::i16vec3(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -364,7 +364,7 @@ impl Exportable for g_i16::I16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec4(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16, w.as_integer()? as i16));
+                        return Some(g_i16::i16vec4(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?, i16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -382,7 +382,7 @@ impl Exportable for g_i32::IVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec2(x.as_integer()? as i32, y.as_integer()? as i32));
+                        return Some(g_i32::ivec2(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -399,7 +399,7 @@ impl Exportable for g_i32::IVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec3(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32));
+                        return Some(g_i32::ivec3(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -416,7 +416,7 @@ impl Exportable for g_i32::IVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec4(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32, w.as_integer()? as i32));
+                        return Some(g_i32::ivec4(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?, i32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
-- 
2.43.0


From 0cfe6341ad0cd814cfaf9c35dc3a6c36e134bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 27/34] fix: the variables of an expanded scene do not capture
 those of its user

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 427aa36..25d018f 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -22,11 +22,16 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
             };
+
+            // These variables must neither capture nor be captured by what the user has written.
+            let node:  syn::Ident = syn::Ident::new("node",  Span::mixed_site());
+            let scene: syn::Ident = syn::Ident::new("scene", Span::mixed_site());
+
             let name_set: TokenStream2 = match name {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene: NodeScene = NodeScene::new(#node);
                     #(
-                        scene.append(#children);
+                        #scene.append(#children);
                     )*
-                    scene
+                    #scene
                 }
             }
         }
-- 
2.43.0


From 331bdc9200423870c4215c6a6bb1e2ba270f10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 28/34] fix: an exported default field starts with the value
 written for it

---
 node_tree_derive/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 30ae211..846ba43 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -538,9 +538,15 @@ pub fn class(input: TokenStream) -> TokenStream {
                     #name: node_tree::structs::node_field::ExportableField::new(#name)
                 }
             },
-            FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
-            }, 
+            FieldKind::ExportDefault => if let Some(default_value) = &field.init {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(#default_value)
+                }
+            } else {
+                quote! {
+                    #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
+                }
+            },
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
                     #name: node_tree::structs::node_field::UniqueField::new(#default_value)
-- 
2.43.0


From a074a7cc7838a8bb0c48ed4b6fc87a53ebf3dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:44 +0000
Subject: [PATCH 29/34] fix: classes whose names differ only by case can be
 declared together

---
 node_tree_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 846ba43..1c5aa00 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -177,7 +177,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
             }
         }).collect(); // We need to collect here so that the unique identities are created here and now!
 
-    let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name.to_string().to_lowercase()), name.span());
+    let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name), name.span());
     let expanded:    TokenStream2 = quote! {
         impl node_tree::traits::registered::Registered for #name {
             fn save_from_owned(&self) -> node_tree::services::node_registry::FieldMap {
@@ -201,6 +201,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         }
         
         // Runs before main.
+        #[allow(non_snake_case)]
         #[node_tree::startup::ctor]
         unsafe fn #static_name() {
             use node_tree::prelude::Registered;
-- 
2.43.0


From 880c46b94fbc6478392221466eb582dc065ad5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 30/34] fix: a node without a tree can be asked for the number
 of its children

---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index ad392ce..e089d85 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -932,7 +932,7 @@ impl NodeBase {
 
     /// Returns the number of children this node has.
     pub fn num_children(&self) -> usize {
-        self.children().len()
+        self.children.len()
     }
 
     /// Returns true if this node has no children.
-- 
2.43.0


From cb73b22b1ab3e19d59eae6a90bc49ac50013a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 31/34] fix: classes may be declared where names of the
 standard library mean something else

---
 node_tree_derive/src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 1c5aa00..9ba9906 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -85,8 +85,8 @@ pub fn r#abstract(input: TokenStream) -> TokenStream {
                 self as *mut dyn node_tree::traits::node::Node
             }
             
-            fn to_dyn_box(self) -> Box<dyn node_tree::traits::node::Node> {
-                Box::new(self)
+            fn to_dyn_box(self) -> std::boxed::Box<dyn node_tree::traits::node::Node> {
+                std::boxed::Box::new(self)
             }
 
             fn as_any_ref(&self) -> &dyn std::any::Any {
@@ -97,11 +97,11 @@ pub fn r#abstract(input: TokenStream) -> TokenStream {
                 self
             }
 
-            fn clone_as_instance(&self) -> Box<dyn node_tree::traits::node::Node> {
-                Box::new(self.clone())
+            fn clone_as_instance(&self) -> std::boxed::Box<dyn node_tree::traits::node::Node> {
+                std::boxed::Box::new(self.clone())
             }
 
-            fn name_as_type(&self) -> String {
+            fn name_as_type(&self) -> std::string::String {
                 std::any::type_name::<Self>().to_string()
             }
         }
@@ -184,16 +184,16 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
                 let mut map = node_tree::services::node_registry::FieldMap::new();
                 #(
                     map.insert(
-                        Box::<str>::from(stringify!(#field_names)),
-                        Box::new(self.#field_names.clone()),
+                        std::boxed::Box::<str>::from(stringify!(#field_names)),
+                        std::boxed::Box::new(self.#field_names.clone()),
                     );
                 )*
                 map
             }
 
-            fn load_from_owned(mut owned_state: node_tree::services::node_registry::SFieldMap) -> Result<Self, String> where Self: Sized {
+            fn load_from_owned(mut owned_state: node_tree::services::node_registry::SFieldMap) -> std::result::Result<Self, std::string::String> where Self: std::marker::Sized {
                 #(#type_definitions)*
-                Ok(Self {
+                std::result::Result::Ok(Self {
                     base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                     #(#deserialization,)*
                 })
@@ -206,9 +206,9 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         unsafe fn #static_name() {
             use node_tree::prelude::Registered;
             
-            node_tree::services::node_registry::register_deserializer(std::any::type_name::<#name>().into(), Box::new(|s_field_map| {
+            node_tree::services::node_registry::register_deserializer(std::any::type_name::<#name>().into(), std::boxed::Box::new(|s_field_map| {
                 let node: #name = #name::load_from_owned(s_field_map)?;
-                Ok(Box::new(node) as Box<dyn node_tree::traits::node::Node>)
+                std::result::Result::Ok(std::boxed::Box::new(node) as std::boxed::Box<dyn node_tree::traits::node::Node>)
             }));
         };
     };
-- 
2.43.0


From 259a0e6243ab2e5d2caf9d712e6839c50f2d9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 32/34] fix: a setting of a scene may have a type with a wrap
 method of its own

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 25d018f..b286e73 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -39,7 +39,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    #node.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 2a2eafd758805d96bf3ec3bd1fc7e27ce7639fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 33/34] fix: exported fields of ghost types are left out of
 saved scenes

---
 node_tree_core/src/structs/node_field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_tree_core/src/structs/node_field.rs b/node_tree_core/src/structs/node_field.rs
index b53bb43..e793196 100644
--- a/node_tree_core/src/structs/node_field.rs
+++ b/node_tree_core/src/structs/node_field.rs
@@ -314,6 +314,10 @@ impl <T: Exportable + Default> Voidable for ExportableField<T> {
 }
 
 impl <T: Exportable> Exportable for ExportableField<T> {
+    unsafe fn is_ghost_export(&self) -> bool {
+        unsafe { self.0.is_ghost_export() }
+    }
+
     fn to_value(&self) -> toml_edit::Value {
         self.0.to_value()
     }
-- 
2.43.0


From 9d3bcdc19c0c6f75969d1fe8baf8153f431a3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 34/34] fix: the tree can be drawn without a bound on the
 levels

---
 node_tree_core/src/utils/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index 60fc408..6845efe 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -73,7 +73,7 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
 
     let origin:    &dyn Node = node_tree.get_node(origin).unwrap();
     let draw_from: &dyn Node = get_start(node_tree, origin, view_up);
-    let levels:    usize     = view_up + view_down;
+    let levels:    usize     = view_up.saturating_add(view_down);
     
     const OTHER_CHILD: &str = "│   ";   // prefix: pipe
     const OTHER_ENTRY: &str = "├── ";   // connector: tee
@@ -119,7 +119,7 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
     }
 
     let mut out: String = format!("[REPORT START]\n{}\n", handle_name_and_status(draw_from.name(), draw_from.status(), &mut warnings, &mut panics));
-    walk(node_tree, draw_from.rid(), "", &mut out, &mut warnings, &mut panics, levels + 1);   // + 1 to compensate for the last names being replaced with "..."
+    walk(node_tree, draw_from.rid(), "", &mut out, &mut warnings, &mut panics, levels.saturating_add(1));   // + 1 to compensate for the last names being replaced with "..."
    
     out += "\n[Same-Frame Warnings]";
     if !warnings.is_empty() {
-- 
2.43.0

