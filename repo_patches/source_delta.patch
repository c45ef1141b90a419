From 24f3cfe07388714c5f52aaf11611577038b61b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 1/7] fix: keep unrelated pending edges when a depth-first
 traversal closes a cycle

Closing a cycle dropped every pending edge that left the ancestor or led to
the new node, not just the one edge being reported from the other end, so
nodes and edges behind them were never visited.
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From 8f3de8ee9c0f349a02c376028e766fd71a2fb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 2/7] fix: do not mark a node as matched when its greedy
 partner is taken

The short-circuited insert marked sid even when tid was already matched,
leaving both sid and its later neighbors unmatched: the greedy matching was
not maximal.
---
 src/matching/greedy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..a6af652 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -50,7 +50,9 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if sid != tid && !nodes.contains(&sid) && !nodes.contains(&tid) {
+                nodes.insert(sid);
+                nodes.insert(tid);
                 // edges.push((sid, tid));
                 pairing.pair(sid, tid);
             }
-- 
2.43.0


From 41eeb8bee925d67f87a03c72fbf1da61c77d9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 3/7] fix: list a self-loop exactly once in every view of a
 graph

An adjacency with a self-loop was accepted, but edges(), size() and == left
it out; add_edge(id, id) listed the neighbor twice, so that components() and
greedy() panicked on the repeated edge.
---
 src/graph/default_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 80be412..6f658a6 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -74,7 +74,11 @@ impl DefaultGraph {
         }
         
         self.adjacency[source_index].push(tid);
-        self.adjacency[target_index].push(sid);
+
+        if source_index != target_index {
+            self.adjacency[target_index].push(sid);
+        }
+
         self.edges.push((sid, tid));
 
         Ok(())
@@ -155,7 +159,7 @@ impl TryFrom<Vec<Vec<usize>>> for DefaultGraph {
                     return Err(Error::MissingEdge(tid, sid));
                 }
 
-                if sid < tid {
+                if sid <= tid {
                     result.edges.push((sid, tid));
                 }
             }
-- 
2.43.0


From e3f9fe2fae25d5afe3d36c2466b8d4994b82f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 4/7] fix: keep a pairing symmetric when a self-paired node is
 re-paired

After pair(0, 0), pair(1, 0) removed the new entry of node 0 together with
its old mate, which is node 0 itself, and left 1 -> 0 without 0 -> 1.
---
 src/matching/pairing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matching/pairing.rs b/src/matching/pairing.rs
index f5356a1..ee2db78 100644
--- a/src/matching/pairing.rs
+++ b/src/matching/pairing.rs
@@ -59,7 +59,9 @@ impl Pairing {
                 } else {
                     let old = entry.insert(tid);
 
-                    self.pairs.remove(&old);
+                    if old != sid {
+                        self.pairs.remove(&old);
+                    }
                 }
             },
             Vacant(entry) => {
-- 
2.43.0


From ebdfc9ab9ae2e9acfe1c206773461f35e35bab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 5/7] fix: pick an unused id for a blossom instead of the
 largest id plus one

The largest id plus one overflows when the graph has a node usize::MAX.
---
 src/matching/maximum_matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..ccbf88f 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -124,8 +124,8 @@ fn even_path<G: Graph>(
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
-    let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let id = (0..).find(|&id| !graph.has_node(id)).expect("no unused id");
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0


From e6f19e9e5a67a8757428705e35942f6509ff03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 6/7] fix: lift augmenting paths through a blossom's root

Lifting entered a blossom at any node next to the path. Paths that met it
elsewhere than at the node its pairing uses came out with an odd length, so
that maximum_matching panicked ("even path augmentation") on some graphs, or
unpaired nodes that were paired before. Prefer entering or leaving through the
root, and drop the detours of a lifted path before it is lifted again.
---
 src/matching/blossom.rs          | 61 +++++++++++++++-----------------
 src/matching/maximum_matching.rs | 23 +++++++++++-
 2 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..662cbca 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -4,6 +4,7 @@ use super::pairing::Pairing;
 #[derive(Debug,PartialEq)]
 pub struct Blossom {
     id: usize,
+    root: usize,
     path: Vec<usize>
 }
 
@@ -23,7 +24,7 @@ impl Blossom {
                     left.push(root);
                     left.append(&mut right);
 
-                    return Self { id, path: left }
+                    return Self { id, root, path: left }
                 }
             }
         }
@@ -137,49 +138,45 @@ impl Blossom {
         &self, left: Vec<usize>, right: Vec<usize>, graph: &'a G
     ) -> Vec<usize> {
         let &sid = left.last().unwrap();
-        let mut forward_blossom = self.path.to_vec();
-        let mut forward = left.to_vec();
-        
-        while !graph.has_edge(sid, forward_blossom[0]).unwrap() {
-            forward_blossom.rotate_right(1);
-        }
-    
         let &tid = &right[0];
+        let mut forward = self.path.to_vec();
+        let mut reverse = self.path.to_vec();
+        let mut fallback = None;
 
-        for &bid in &forward_blossom {
-            forward.push(bid);
+        reverse.reverse();
 
-            if graph.has_edge(bid, tid).unwrap() {
-                break;
-            }
-        }
-
-        forward.extend(right.iter());
+        // The rest of the blossom stays matched if the path enters or leaves
+        // through the root.
+        for cycle in &mut [ &mut forward, &mut reverse ] {
+            for _ in 0..cycle.len() {
+                cycle.rotate_right(1);
 
-        if forward.len() % 2 == 0 {
-            return forward
-        }
+                if !graph.has_edge(sid, cycle[0]).unwrap() {
+                    continue;
+                }
 
-        let mut reverse = left.to_vec();
-        let mut reverse_blossom = self.path.to_vec();
+                for (i, &bid) in cycle.iter().enumerate() {
+                    if (left.len() + i + 1 + right.len()) % 2 == 1 {
+                        continue;
+                    } else if !graph.has_edge(bid, tid).unwrap() {
+                        continue;
+                    }
 
-        reverse_blossom.reverse();
+                    let mut path = left.to_vec();
 
-        while !graph.has_edge(sid, reverse_blossom[0]).unwrap() {
-            reverse_blossom.rotate_right(1);
-        }
+                    path.extend(cycle[..=i].iter());
+                    path.extend(right.iter());
 
-        for &bid in &reverse_blossom {
-            reverse.push(bid);
+                    if cycle[0] == self.root || bid == self.root {
+                        return path
+                    }
 
-            if graph.has_edge(bid, tid).unwrap() {
-                break;
+                    fallback = fallback.or(Some(path));
+                }
             }
         }
 
-        reverse.extend(right.iter());
-
-        reverse
+        fallback.expect("path does not cross blossom")
     }
 }
 
diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index ccbf88f..7f7501d 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -130,11 +130,32 @@ fn process_blossom<G:Graph>(
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
     match augmenting_path(&contracted_graph, &mut contracted_pairing) {
-        Some(path) => Some(blossom.lift(path, graph)),
+        Some(path) => Some(alternating_path(blossom.lift(path, graph), pairing)),
         None => None
     }
 }
 
+// A lifted path may visit a whole blossom out of turn. Drops the detours, so
+// that every second edge of the result is one of the pairing.
+fn alternating_path(path: Vec<usize>, pairing: &Pairing) -> Vec<usize> {
+    let mut augmented = Pairing::new();
+    let mut result = Vec::new();
+    let mut next = path.iter().find(|&&id| !pairing.has_node(id)).cloned();
+
+    augmented.augment(path);
+
+    while let Some(id) = next {
+        let mate = augmented.mate(id);
+
+        result.push(id);
+        result.push(mate);
+
+        next = if pairing.has_node(mate) { Some(pairing.mate(mate)) } else { None };
+    }
+
+    result
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b7bf771f16802035b0b90272380fc75a47066fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:59 +0000
Subject: [PATCH 7/7] fix: maximum_matching calls itself once for every path it
 finds

---
 src/matching/maximum_matching.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 7f7501d..6c84d77 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -39,7 +39,6 @@ pub fn maximum_matching<'a, G: Graph>(
 ) {
     while let Some(path) = augmenting_path(graph, pairing) {
         pairing.augment(path);
-        maximum_matching(graph, pairing);
     }
 }
 
-- 
2.43.0

