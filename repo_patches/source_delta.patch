From 39776c4119da649465d7fbfcc0bd83b6a5cf787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 01/89] fix: compare graph ids instead of negating them in node
 ownership checks

---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..ff3a05a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -504,13 +504,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +572,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +635,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +732,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 0622314187a453f09bdbdb93ab5876e1984709ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 02/89] fix: order every root's dependencies before it,
 connected to a graph output or not

---
 knaster_graph/src/graph.rs | 82 ++++++++++----------------------------
 1 file changed, 22 insertions(+), 60 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ff3a05a..60b9d6a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1978,44 +1978,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2027,35 +1989,35 @@ impl<F: Float> Graph<F> {
         for edge in self.output_edges.iter().filter_map(|e| *e) {
             if let NodeKeyOrGraph::Node(source) = edge.source {
                 // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // e.g. for stereo so we need to check if visited.
+                if visited.insert(source) {
+                    // Every root has to be finished before the next one is started. Otherwise a
+                    // root could be visited, but not yet ordered, when it is found to be the
+                    // input of a node reached from another root.
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
-        let mut remaining_nodes = vec![];
-        for (node_key, _node) in self.get_nodes() {
-            if !visited.contains(&node_key)
-                && !self
-                    .node_keys_to_free_when_safe
-                    .iter()
-                    .any(|(key, _)| key == &node_key)
+        // Add all remaining nodes. These are not currently connected to any graph output, but may
+        // be connected to each other.
+        let num_connected_nodes = self.node_order.len();
+        let node_keys: Vec<NodeKey> = self.get_nodes().keys().collect();
+        for node_key in node_keys {
+            if !self
+                .node_keys_to_free_when_safe
+                .iter()
+                .any(|(key, _)| *key == node_key)
+                && visited.insert(node_key)
             {
-                remaining_nodes.push(node_key);
+                nodes_to_process.push(node_key);
+                let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                self.node_order.extend(stack);
             }
         }
-        self.node_order.extend(remaining_nodes.iter());
-        self.disconnected_nodes = remaining_nodes;
+        self.disconnected_nodes = self.node_order[num_connected_nodes..].to_vec();
         // debug
         // let nodes = self.get_nodes();
         // for (i, n) in self.node_order.iter().enumerate() {
-- 
2.43.0


From c0b0d9a8bbfbe168eef247a4a5607d8eb69b7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 03/89] fix: keep the buffers of nodes connected to graph
 outputs until the end of the block

---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 60b9d6a..1821d58 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1606,6 +1606,13 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // Graph outputs are read after all nodes have run. Counting them as dependents which never
+        // return the block keeps it from being reused.
+        for edge in self.output_edges.iter().flatten() {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
         // Add parameter edges as dependents
         for (_key, edges) in &self.node_parameter_edges {
             for edge in edges {
-- 
2.43.0


From 0bd01055760a56a2d42d833b53b57ec7c79a5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 04/89] fix: don't allocate buffer blocks for nodes without
 outputs

---
 knaster_graph/src/buffer_allocator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/knaster_graph/src/buffer_allocator.rs b/knaster_graph/src/buffer_allocator.rs
index 2b4de1e..deac0d9 100644
--- a/knaster_graph/src/buffer_allocator.rs
+++ b/knaster_graph/src/buffer_allocator.rs
@@ -110,6 +110,11 @@ impl<F: Float> BufferAllocator<F> {
         num_borrows: usize,
     ) -> usize {
         let len = num_channels * block_size;
+        if len == 0 {
+            // Nothing will be written to a block without channels and it can't be borrowed from. A
+            // block of its own would share its offset with the next block.
+            return 0;
+        }
         // 1. Try to use an existing allocated block in order of return. If only
         // part of a block is needed, split it.
         for i in 0..self.return_order.len() {
-- 
2.43.0


From ebc8d363c829687c3b276a88016c8fb2257f223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 05/89] fix: don't panic on unconnected graph outputs when
 removing a summing node

---
 knaster_graph/src/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1821d58..1a9ce27 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1116,8 +1116,7 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
-- 
2.43.0


From 54d097effea4baae75a33a2f127909a881117f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 06/89] fix: disconnecting a graph input leaves the graph
 output of the same index alone

---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1a9ce27..61e4ecb 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1022,11 +1022,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From 44c03088b017222fe1449e7e6c419a2cf189ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 07/89] fix: disconnecting a graph output takes effect at the
 next commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 61e4ecb..73caf7a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1085,6 +1085,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From 38c4dc6b461adb8fae0ae56e6463d1c1346c6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 08/89] fix: feedback connections use a feedback source node
 and run their nodes in dependency order

---
 knaster_graph/src/graph.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 73caf7a..7231db7 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -769,7 +769,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -783,6 +783,8 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            // The feedback source node only has one output
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
@@ -816,7 +818,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: feedback,
+                is_feedback: false,
             });
         }
     }
@@ -892,7 +894,7 @@ impl<F: Float> Graph<F> {
             buffers: buffers.clone(),
             bufnum: bufnum.clone(),
         };
-        let source = FeedbackSink {
+        let source = FeedbackSource {
             buffers: buffers.clone(),
             bufnum: bufnum.clone(),
         };
@@ -1951,14 +1953,14 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                // Feedback edges lead to a feedback sink node, which has no outputs and therefore
+                // cannot be part of a cycle. It has to run after its source like any other node.
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
-- 
2.43.0


From 77349f44ad34c76eaddbf06cd730cd51a8b7e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 09/89] fix: feedback connections delay by one block whatever
 the order of their nodes

---
 knaster_graph/src/graph.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 7231db7..513ffbe 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -886,18 +885,13 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
+        // The sink and the source run once each per block, in any order. Starting at different
+        // buffers, the source always reads what the sink wrote in the previous block.
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSource {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: 0,
         };
+        let source = FeedbackSource { buffers, bufnum: 1 };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -2326,12 +2320,8 @@ impl From<u16> for Channels<U1> {
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to write in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2358,7 +2348,8 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
+        let bufnum = self.bufnum;
+        self.bufnum = 1 - bufnum;
         let input = input.channel_as_slice(0);
         unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
     }
@@ -2383,9 +2374,8 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to read in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2412,11 +2402,10 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
+        let bufnum = self.bufnum;
+        self.bufnum = 1 - bufnum;
         let output = output.channel_as_slice_mut(0);
-        unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
+        unsafe { output.copy_from_slice(self.buffers[bufnum].as_slice_mut()) }
     }
 
     fn param_hints()
-- 
2.43.0


From dd7ba9cb5af578f715cabe6ba49ae67cf23afd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 10/89] fix: treat freed nodes that are waiting to be reclaimed
 as not found

---
 knaster_graph/src/graph.rs | 49 +++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 513ffbe..44d6a79 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -342,7 +342,7 @@ impl<F: Float> Graph<F> {
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
     pub fn node_data(&self, id: impl Into<NodeId>) -> Option<NodeData> {
         let node_id = id.into();
-        if node_id.graph != self.graph_id {
+        if node_id.graph != self.graph_id || !self.is_live(node_id.key()) {
             return None;
         }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
@@ -352,7 +352,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.is_live(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -432,6 +432,10 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
+        if node_id.graph != self.graph_id || !self.is_live(node_id.key()) {
+            log::error!("Tried to set the name of a node that is not in the graph");
+            return;
+        }
         self.get_nodes_mut()[node_id.key()].name = name;
     }
 
@@ -439,7 +443,7 @@ impl<F: Float> Graph<F> {
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.is_live(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
@@ -456,6 +460,12 @@ impl<F: Float> Graph<F> {
         AudioCtx::new(self.sample_rate, self.block_size, ArLogSender::non_rt())
     }
 
+    /// Returns true if the node exists and hasn't been freed. A freed node stays in `nodes` until
+    /// the audio thread has stopped using it, but its edges are removed immediately.
+    fn is_live(&self, key: NodeKey) -> bool {
+        self.node_input_edges.contains_key(key)
+    }
+
     /// Add a node to this Graph. The Node will be (re)initialised with the
     /// correct block size for this Graph.
     fn push_node(&mut self, mut node: Node<F>) -> NodeKey {
@@ -517,13 +527,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -581,7 +591,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -668,7 +678,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -741,7 +751,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1005,7 +1015,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.is_live(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1057,7 +1067,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.is_live(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -1350,10 +1360,10 @@ impl<F: Float> Graph<F> {
                 found_graph: node_id.graph,
             });
         }
-        let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        if !self.is_live(node_id.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
                 if param_i as u16 >= node.data.parameters {
@@ -1729,20 +1739,12 @@ impl<F: Float> Graph<F> {
 
     pub(crate) fn free_node_from_key(&mut self, node_key: NodeKey) -> Result<(), FreeError> {
         // Does the Node exist?
-        if !self.get_nodes_mut().contains_key(node_key) {
+        if !self.is_live(node_key) {
             return Err(FreeError::NodeNotFound);
         }
         if !self.node_mortality[node_key] {
             return Err(FreeError::ImmortalNode);
         }
-        if self
-            .node_keys_to_free_when_safe
-            .iter()
-            .any(|(key, _)| *key == node_key)
-        {
-            return Ok(());
-        }
-        //
         self.recalculation_required = true;
 
         // Remove all edges leading to the node
@@ -2045,6 +2047,9 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id || !self.is_live(node.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
-- 
2.43.0


From c7be364ac25e84dfac5341da730de1d46ed416c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 11/89] fix: refuse parameter links to missing nodes and
 parameters out of bounds

---
 knaster_graph/src/graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 44d6a79..b58a01a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -657,11 +657,19 @@ impl<F: Float> Graph<F> {
                 found_graph: sink.graph,
             });
         }
+        if !self.is_live(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         let nodes = self.get_nodes();
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
-- 
2.43.0


From 9e0d6e101047efbb0a6134f7d043f406853e6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 12/89] fix: detect cycles through parameter links

---
 knaster_graph/src/graph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index b58a01a..5007c1a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -692,6 +692,9 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
 
         let edges = self
             .node_parameter_edges
@@ -1485,6 +1488,11 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    for edge in edges {
+                        stack.push(edge.source);
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 3a24215913b5cc5188f4c0dcf016a4da6c2a404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 13/89] fix: parameter links take effect at the next commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5007c1a..3a1637b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -695,6 +695,7 @@ impl<F: Float> Graph<F> {
         if self.has_path(sink, source) {
             return Err(GraphError::CircularConnection);
         }
+        self.recalculation_required = true;
 
         let edges = self
             .node_parameter_edges
-- 
2.43.0


From fd9997d300cb4ac5b7ce9a266d3773a2d4b31f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 14/89] fix: unlink parameters when the node controlling them
 is freed or disconnected

---
 knaster_core/src/ugen.rs                      |  4 ++-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/graph.rs                    | 31 +++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..ad26e0f 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -314,8 +314,10 @@ pub trait UGen {
     /// this function is equivalent to running frame-by-frame and setting the
     /// value every frame.
     ///
+    /// A null pointer disables audio rate control of the parameter, which then keeps its value.
+    ///
     /// # Safety
-    /// The caller guarantees that the pointer will point to a
+    /// The caller guarantees that the pointer is null or will point to a
     /// contiguous allocation of at least block size until it is replaced,
     /// disabled, or the inner struct is dropped.
     #[allow(unused)]
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 3a1637b..3d0a27c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -174,6 +174,9 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// Parameters whose edge was removed since the last commit. They have to be told to stop
+    /// reading from the buffer of their former source.
+    unlinked_parameters: Vec<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -244,6 +247,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            unlinked_parameters: vec![],
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1054,6 +1058,9 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        self.remove_parameter_edges(|edge| {
+            edge.channel_in_source == source_channel && source == edge.source.into()
+        });
         for edge in self.output_edges.iter_mut().filter(|e| e.is_some()) {
             let edge_unwraped = edge.as_mut().unwrap();
             if edge_unwraped.channel_in_source == source_channel && source == edge_unwraped.source {
@@ -1549,6 +1556,15 @@ impl<F: Float> Graph<F> {
     /// time the schedule is updated.
     fn generate_ar_parameter_changes(&mut self) -> Vec<ArParameterChange<F>> {
         let mut apc = Vec::new();
+        for (node_key, parameter_index) in std::mem::take(&mut self.unlinked_parameters) {
+            if let Some(node_index) = self.node_order.iter().position(|k| *k == node_key) {
+                apc.push(ArParameterChange {
+                    node: node_index,
+                    parameter_index: parameter_index as usize,
+                    buffer: crate::core::ptr::null(),
+                })
+            }
+        }
         for (node_key, edges) in &self.node_parameter_edges {
             for edge in edges {
                 let ParameterEdge {
@@ -1754,6 +1770,19 @@ impl<F: Float> Graph<F> {
         self.graph_id
     }
 
+    /// Remove all parameter edges matching the condition and unlink the parameters they lead to.
+    fn remove_parameter_edges(&mut self, condition: impl Fn(&ParameterEdge) -> bool) {
+        for (sink, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                let remove = condition(edge);
+                if remove {
+                    self.unlinked_parameters.push((sink, edge.parameter_index));
+                }
+                !remove
+            });
+        }
+    }
+
     pub(crate) fn free_node_from_key(&mut self, node_key: NodeKey) -> Result<(), FreeError> {
         // Does the Node exist?
         if !self.is_live(node_key) {
@@ -1786,6 +1815,8 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // Remove all edges leading from the node to the parameters of other nodes
+        self.remove_parameter_edges(|edge| edge.source == node_key);
         // Remove all edges leading from the node to the Graph output
         {
             let mut i = 0;
-- 
2.43.0


From 17e9ae04324c36f424a88d9ad2cfc4dec412d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 15/89] fix: removing a summing node keeps the parameter links
 behind it

---
 knaster_graph/src/graph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 3d0a27c..29aa035 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1127,6 +1127,14 @@ impl<F: Float> Graph<F> {
                     (Some(_), Some(_)) => (),
                     (None, Some(input_edge)) | (Some(input_edge), None) => {
                         // Find out where this math node is pointing and replace the node
+                        for (_k, parameter_edges) in &mut self.node_parameter_edges {
+                            for edge in parameter_edges.iter_mut().filter(|e| e.source == key) {
+                                if let NodeKeyOrGraph::Node(source) = input_edge.source {
+                                    edge.source = source;
+                                    edge.channel_in_source = input_edge.channel_in_source;
+                                }
+                            }
+                        }
                         for (_k, input_edges) in &mut self.node_input_edges {
                             for edge in input_edges.iter_mut().filter(|e| e.is_some()) {
                                 let edge = edge.as_mut().unwrap();
-- 
2.43.0


From 019a41a1ad85880340d9f26e0c1a863fba41b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 16/89] fix: free summing nodes whose connection was replaced

---
 knaster_graph/src/graph.rs | 59 +++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 29aa035..a9e6ff2 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1115,6 +1115,32 @@ impl<F: Float> Graph<F> {
         }
         Ok(())
     }
+    /// Automatically added math nodes that nothing reads from anymore, e.g. because the connection
+    /// they were created for was replaced.
+    fn unused_math_nodes(&self) -> Vec<NodeKey> {
+        let input_sources = self.node_input_edges.values().flat_map(|edges| edges.iter());
+        let mut used: HashSet<NodeKey> = input_sources
+            .chain(self.output_edges.iter())
+            .flatten()
+            .filter_map(|edge| match edge.source {
+                NodeKeyOrGraph::Node(key) => Some(key),
+                NodeKeyOrGraph::Graph => None,
+            })
+            .collect();
+        used.extend(
+            self.node_parameter_edges
+                .values()
+                .flatten()
+                .map(|edge| edge.source),
+        );
+        self.get_nodes()
+            .iter()
+            .filter(|(key, node)| {
+                node.auto_math_node && self.is_live(*key) && !used.contains(key)
+            })
+            .map(|(key, _)| key)
+            .collect()
+    }
     /// If the node should be automatically removed, this removes it.
     fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
         let node = &mut self.get_nodes_mut()[key];
@@ -1948,17 +1974,28 @@ impl<F: Float> Graph<F> {
         // Remove orphaned internal math nodes.
         // Math nodes should be removed when one of its inputs was removed
         // This could be merged with the loop above, but then math nodes would be removed one step after its input(s)
-        let node_keys: Vec<NodeKey> = unsafe {
-            self.nodes
-                .get()
-                .as_mut()
-                .expect("nodes are always available")
-                .keys()
-                .collect()
-        };
-        for key in node_keys {
-            // TODO: Evaluate for affected nodes when changes occur instead of on all nodes.
-            self.evaluate_if_node_should_be_removed(key);
+        // Removing one may orphan another, so this is repeated until nothing more is removed.
+        loop {
+            let num_freed = self.node_keys_to_free_when_safe.len();
+            let node_keys: Vec<NodeKey> = unsafe {
+                self.nodes
+                    .get()
+                    .as_mut()
+                    .expect("nodes are always available")
+                    .keys()
+                    .collect()
+            };
+            let unused_math_nodes = self.unused_math_nodes();
+            for key in node_keys {
+                // TODO: Evaluate for affected nodes when changes occur instead of on all nodes.
+                self.evaluate_if_node_should_be_removed(key);
+            }
+            for key in unused_math_nodes {
+                self.free_node_from_key(key).ok();
+            }
+            if self.node_keys_to_free_when_safe.len() == num_freed {
+                break;
+            }
         }
 
         // Remove old nodes
-- 
2.43.0


From 70ca49e64f31f0bd31c9d5d03c0f38292b7309e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 17/89] fix: keep changes for the next commit when the audio
 thread has not caught up

---
 knaster_graph/src/graph.rs      | 7 +++++++
 knaster_graph/src/graph_edit.rs | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a9e6ff2..bcbd6b3 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1784,6 +1784,13 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                // UGens that are new in this update would be lost with it. Leave the changes to be
+                // sent by the next commit.
+                return Err(GraphError::SendToGraphGen(
+                    "the ring buffer for new task data is full".into(),
+                ));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..d87abbd 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,9 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            log::error!("Changes to the graph could not be committed: {e}");
+        }
     }
 }
 
-- 
2.43.0


From f388689e8fb14295a5e98656e3da2572e8ea8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 18/89] fix: every wrapper forwards audio-rate parameter
 buffers and delays

---
 .../src/wrappers_core/audio_rate.rs           | 19 +++++++++++++++++++
 .../src/wrappers_core/smooth_params.rs        | 14 ++++++++++++++
 knaster_graph/src/wrappers_graph/done.rs      | 18 ++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..4570d22 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,11 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -168,4 +173,18 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..7804f0e 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..c3134b2 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -118,4 +118,22 @@ where
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index < T::Parameters::USIZE {
+            unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From b9fba4c85b7af6d38c32729175a038a140d8216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 19/89] fix: the parameter WrMul adds is not handed to the
 wrapped UGen

---
 knaster_core_dsp/src/wrappers_core/math.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..b7cde65 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -102,13 +102,18 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        // The parameter added by this wrapper does not exist in the inner UGen
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0


From a16ca4908ecd767001e861ff892aeee15f8f86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 20/89] fix: free the parent graph from the earliest frame any
 of its nodes reported

---
 knaster_core/src/ugen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index ad26e0f..825a822 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -187,10 +187,12 @@ impl UGenFlags {
     ///
     /// From and including the frame number specified, the graph will output 0.0
     /// on all channels until removed. To output the entire block, set
-    /// `from_frame_in_block` to the current block size.
+    /// `from_frame_in_block` to the current block size. If the flag is set several
+    /// times in a block, the earliest frame is kept.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        self.remove_parent_from_frame_in_block =
+            self.remove_parent_from_frame_in_block.min(from_frame);
     }
     /// Mark this node as done.
     ///
-- 
2.43.0


From b49e1f509765a0f477e5bb79d79db0a579368a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 21/89] fix: frames marked as done in part of a block are
 relative to the whole block

---
 knaster_core/src/ugen.rs                      | 28 ++++++++++++++++++-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 .../src/wrappers_core/precise_timing.rs       |  4 ++-
 .../src/wrappers_core/smooth_params.rs        |  8 ++++--
 4 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 825a822..f45b1d9 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -202,6 +202,32 @@ impl UGenFlags {
         self.done = true;
         self.done_frame_in_block = from_frame;
     }
+    /// Run `process` for the part of the current block that starts `start_offset` frames in.
+    ///
+    /// Frames are marked relative to the block being processed. This makes the frames marked in
+    /// `process` relative to the current block instead of to the partial block. Wrappers which
+    /// process a block in parts need to use this. The first frame marked as done is kept.
+    pub fn partial<R>(&mut self, start_offset: usize, process: impl FnOnce(&mut Self) -> R) -> R {
+        let (done, done_frame) = (self.done, self.done_frame_in_block);
+        let (remove_parent, remove_frame) =
+            (self.remove_parent, self.remove_parent_from_frame_in_block);
+        self.done = false;
+        self.clear_parent_flags();
+        let result = process(self);
+        if done {
+            self.mark_done(done_frame);
+        } else if self.done {
+            self.mark_done(self.done_frame_in_block.saturating_add(start_offset as u32));
+        }
+        if self.remove_parent {
+            self.remove_parent_from_frame_in_block =
+                self.remove_parent_from_frame_in_block.saturating_add(start_offset as u32);
+        }
+        if remove_parent {
+            self.mark_remove_parent(remove_frame);
+        }
+        result
+    }
     /// Mark that the `remove_self` flag is supported.
     pub fn mark_remove_self_supported(&mut self) {
         self.remove_self_supported = true;
@@ -278,7 +304,7 @@ pub trait UGen {
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
-            let out_frame = self.process(ctx, flags, in_frame);
+            let out_frame = flags.partial(frame, |flags| self.process(ctx, flags, in_frame));
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 4570d22..2998585 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -154,7 +154,7 @@ where
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
-            let out_frame = self.process(ctx, flags, in_frame);
+            let out_frame = flags.partial(frame, |flags| self.process(ctx, flags, in_frame));
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..2c03bf4 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -103,7 +103,9 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 let mut output = output.partial_mut(block_i, local_frames_to_process);
                 let partial_block = org_block.make_partial(block_i, local_frames_to_process);
                 ctx.block = partial_block;
-                self.ugen.process_block(ctx, flags, &input, &mut output);
+                flags.partial(block_i, |flags| {
+                    self.ugen.process_block(ctx, flags, &input, &mut output)
+                });
                 ctx.block = org_block;
             }
             block_i += local_frames_to_process;
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 7804f0e..1073ba8 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -164,7 +164,9 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                     let mut output = output.partial_mut(i, 1);
                     let partial_ctx = org_block.make_partial(i, 1);
                     ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
+                    flags.partial(i, |flags| {
+                        self.ugen.process_block(ctx, flags, &input, &mut output)
+                    });
                     i += 1;
                 } else {
                     // Process the full block
@@ -172,7 +174,9 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                     let mut output = output.partial_mut(i, output.block_size() - i);
                     let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
                     ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
+                    flags.partial(i, |flags| {
+                        self.ugen.process_block(ctx, flags, &input, &mut output)
+                    });
                     break;
                 }
             }
-- 
2.43.0


From 86db28c240dd38bee6562458adf5f860f9678d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 22/89] fix: parameter smoothing ramps linearly at either rate,
 in partial blocks and with zero durations

Audio rate ramps were never run, the value set before smoothing was enabled
was not the start of the ramp, changing the smoothing stopped a ramp, and a
zero duration applied NaN.
---
 .../src/wrappers_core/smooth_params.rs        | 143 ++++++++----------
 1 file changed, 60 insertions(+), 83 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 1073ba8..a3d0e88 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -39,15 +39,8 @@ impl<T: UGen> WrSmoothParams<T> {
         match smoothing {
             ParameterSmoothing::None => match self.smoothing_state[index] {
                 ParameterSmoothingState::None { .. } => (),
-                ParameterSmoothingState::Linear {
-                    start_value,
-                    end_value,
-                    duration_frames,
-                    frames_elapsed,
-                    ..
-                } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
+                ParameterSmoothingState::Linear { .. } => {
+                    let current_value = self.smoothing_state[index].current_value();
                     self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
                 }
             },
@@ -65,12 +58,7 @@ impl<T: UGen> WrSmoothParams<T> {
                         }
                     }
                     ParameterSmoothingState::Linear {
-                        start_value,
-                        end_value,
-                        duration_frames,
-                        frames_elapsed,
-                        done,
-                        rate: _,
+                        end_value, done, ..
                     } => {
                         if done {
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
@@ -82,17 +70,14 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
+                            // Continue from the value reached towards the same target
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: current_value,
+                                start_value: self.smoothing_state[index].current_value(),
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
@@ -137,58 +122,38 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
-        if there_is_an_ar_parameter {
-            //  run sample by sample for as long as needed
-            let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
-                if there_is_a_new_smoothing_value {
-                    for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
-                            self.ugen
-                                .param_apply(ctx, j, ParameterValue::Float(new_value))
-                        }
-                    }
-                    let input = PartialBlock::from_block(input, i, 1);
-                    let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
-                    flags.partial(i, |flags| {
-                        self.ugen.process_block(ctx, flags, &input, &mut output)
-                    });
-                    i += 1;
-                } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
-                    flags.partial(i, |flags| {
-                        self.ugen.process_block(ctx, flags, &input, &mut output)
-                    });
-                    break;
-                }
-            }
-        } else {
-            // We only have potentially block rate parameters, run the whole block
+        let frames = ctx.frames_to_process();
+        let mut i = 0;
+        while i < frames {
+            let there_is_a_new_ar_value = self
+                .smoothing_state
+                .iter()
+                .any(|state| state.has_new_ar_value());
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(frames, i) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
             }
-            self.ugen.process_block(ctx, flags, input, output);
+            // Run sample by sample for as long as needed, then the rest of the block
+            let length = if there_is_a_new_ar_value {
+                1
+            } else {
+                frames - i
+            };
+            if length == frames {
+                self.ugen.process_block(ctx, flags, input, output);
+            } else {
+                let input = PartialBlock::from_block(input, i, length);
+                let mut output = output.partial_mut(i, length);
+                ctx.block = org_block.make_partial(i, length);
+                flags.partial(i, |flags| {
+                    self.ugen.process_block(ctx, flags, &input, &mut output)
+                });
+                ctx.block = org_block;
+            }
+            i += length;
         }
     }
     type Parameters = T::Parameters;
@@ -213,27 +178,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             ParameterValue::Float(float_value) => {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
+                    let reached = self.smoothing_state[index].current_value();
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
                             start_value,
                             end_value,
-                            duration_frames,
                             frames_elapsed,
                             done,
                             ..
                         } => {
-                            if *done {
-                                *start_value = *end_value;
-                            } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
-                            }
+                            *start_value = reached;
                             *end_value = float_value;
                             *done = false;
                             *frames_elapsed = 0;
@@ -278,16 +236,37 @@ enum ParameterSmoothingState {
     },
 }
 impl ParameterSmoothingState {
-    pub fn next_value(&mut self, block_size: usize, frame_in_block: usize) -> Option<PFloat> {
+    /// The value reached so far. A ramp ends on exactly its end value, immediately if its duration
+    /// is zero.
+    fn current_value(&self) -> PFloat {
         match self {
-            ParameterSmoothingState::None { .. } => None,
+            ParameterSmoothingState::None { current_value } => *current_value,
             ParameterSmoothingState::Linear {
                 start_value,
                 end_value,
+                duration_frames,
+                frames_elapsed,
+                ..
+            } => {
+                if *frames_elapsed >= *duration_frames {
+                    *end_value
+                } else {
+                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
+                    (*end_value - *start_value) * current_mix + *start_value
+                }
+            }
+        }
+    }
+    pub fn next_value(&mut self, block_size: usize, frame_in_block: usize) -> Option<PFloat> {
+        let current_value = self.current_value();
+        match self {
+            ParameterSmoothingState::None { .. } => None,
+            ParameterSmoothingState::Linear {
                 duration_frames,
                 frames_elapsed,
                 rate,
                 done,
+                ..
             } => {
                 if matches!(rate, Rate::BlockRate) && frame_in_block != 0 {
                     // Only provide a new value at the start of a block in BlockRate
@@ -296,8 +275,6 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
                     if *frames_elapsed == *duration_frames {
                         *done = true;
                     } else {
-- 
2.43.0


From dac6159997c3b7660ccc07da0bf709ebc7b9fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 23/89] fix: a delay within the block only concerns the change
 it was set for

---
 .../src/wrappers_core/precise_timing.rs        |  7 +++++--
 knaster_graph/src/graph_gen.rs                 | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 2c03bf4..634e46e 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -60,6 +60,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -126,10 +127,12 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // The delay only concerns the next change
+        let delay = core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            self.waiting_changes[self.next_delay_i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..55efdcc 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -288,14 +288,16 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
-                if let Some(smoothing) = event.smoothing {
-                    g.param_apply(ctx, event.parameter, smoothing.into());
-                }
-                if let Some(value) = event.value {
-                    g.param_apply(ctx, event.parameter, value);
+                let changes = [event.smoothing.map(|s| s.into()), event.value];
+                for change in changes.into_iter().flatten() {
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
+                    g.param_apply(ctx, event.parameter, change);
                 }
                 return None;
             }
-- 
2.43.0


From f71c5b667ceae2f808bdcf0993af4a3040e28eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 24/89] fix: precise timing applies changes due in the same
 block in time order

---
 knaster_core_dsp/src/wrappers_core/precise_timing.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 634e46e..7fd6a63 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -4,8 +4,8 @@ use knaster_core::{
     AudioCtx, ParameterHint, ParameterValue, PartialBlock, UGen, UGenFlags, rt_log,
 };
 
-/// Enables sample accurate parameter changes within a block. Changes must be
-/// scheduled in the order they are to be applied.
+/// Enables sample accurate parameter changes within a block. Changes are applied in the order of
+/// their delays, and those with the same delay in the order they were made.
 ///
 /// `DelayedChangesPerBlock` determines the maximum number of changes that can
 /// be scheduled per block.
@@ -132,7 +132,13 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
         if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((delay, index, value));
+            // Keep the changes in the order they are to be applied
+            let mut i = self.next_delay_i;
+            while i > 0 && self.waiting_changes[i - 1].is_some_and(|c| c.0 > delay) {
+                self.waiting_changes[i] = self.waiting_changes[i - 1];
+                i -= 1;
+            }
+            self.waiting_changes[i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
-- 
2.43.0


From 97a80b6f3421c3c5c64e6f57c9b9bd5517736b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 25/89] fix: keep the operand order when a constant is the left
 operand

---
 knaster_graph/src/graph_edit.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index d87abbd..4b9e849 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1040,6 +1040,8 @@ macro_rules! math_gen_fn_static_constant {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The constant is the left operand
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> ChannelsHandle<S0::Outputs> {
             let mut out_channels = ChannelIterBuilder::new();
@@ -1047,12 +1049,18 @@ macro_rules! math_gen_fn_static_constant {
             // TODO: Make a separate UGen for constant number maths to avoid this extra node
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (source_input, constant_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, source_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1114,18 +1122,26 @@ macro_rules! math_gen_fn_dynamic_constant {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The constant is the left operand
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> DynamicChannelsHandle {
             let mut out_channels = SmallVec::with_capacity(s0.outputs() as usize);
             let mut g = graph.write();
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
+            let (source_input, constant_input) = if constant_first { (1, 0) } else { (0, 1) };
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, source_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(
+                    c.node_id(),
+                    0,
+                    constant_input,
+                    NodeOrGraph::Node(mul.node_id()),
+                ) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1177,7 +1193,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
                 SH {
-                    nodes: $fn_name(self.nodes, rhs, graph),
+                    nodes: $fn_name(self.nodes, rhs, false, graph),
                     graph: &self.graph,
                 }
             }
@@ -1188,7 +1204,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name(rhs.nodes, self, true, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1384,7 +1400,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
-                let handle = $fn_name(self.nodes, rhs, graph);
+                let handle = $fn_name(self.nodes, rhs, false, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1396,7 +1412,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name(rhs.nodes, self, true, graph);
                 DH {
                     nodes: handle,
                     graph,
-- 
2.43.0


From 104ba21bc2c0ede678d4a276beb147fdfe96a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 26/89] fix: integer constants keep their precision

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 4b9e849..e0ff6aa 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -990,7 +990,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From de1bdbaa374ccdeab20848bbe99330306e5d9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 27/89] fix: every way of setting a parameter checks its index

---
 knaster_graph/src/graph.rs      |  2 +-
 knaster_graph/src/graph_edit.rs |  2 +-
 knaster_graph/src/handle.rs     | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index bcbd6b3..171a584 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1419,7 +1419,7 @@ impl<F: Float> Graph<F> {
         let node = &self.get_nodes()[node_id.key()];
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index e0ff6aa..c06e1ce 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -862,7 +862,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..cbfee84 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -221,7 +221,10 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) if param_i < T::Parameters::USIZE => param_i,
+            knaster_core::Param::Index(_) => {
+                return Err(ParameterError::ParameterIndexOutOfBounds.into());
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -279,7 +282,10 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) if param_i < self.parameters.len() => param_i,
+            knaster_core::Param::Index(_) => {
+                return Err(ParameterError::ParameterIndexOutOfBounds.into());
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
-- 
2.43.0


From 5e1f41291dc1e2a6b156857d9ed5ea77f8b7035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 28/89] fix: scheduled changes are not discarded before they
 are due

---
 knaster_graph/src/graph_gen.rs  | 15 +++++++++++----
 knaster_graph/src/scheduling.rs |  3 +--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 55efdcc..a51ae36 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -43,9 +43,9 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     pub(super) freed: bool,
 
     // The parameter changes that haven't been applied yet, and the number of
-    // blocks it has stayed here. After a large number of blocks it is removed
-    // to avoid filling up the queue with parameter changes for nodes that don't
-    // exist anymore.
+    // blocks it has stayed here without its node being in the graph. After a
+    // large number of blocks it is removed to avoid filling up the queue with
+    // parameter changes for nodes that don't exist anymore.
     pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32)>,
 
     pub(super) current_task_data: TaskData<F>,
@@ -125,6 +125,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     continue;
                 }
 
+                let node_key = event.node_key;
                 if let Some(unapplied) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
@@ -133,8 +134,14 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     keys,
                     tasks,
                 ) {
+                    // A change for a node in the graph waits for as long as it takes to be due
+                    let num_blocks_waiting = if keys.contains(&node_key) {
+                        0
+                    } else {
+                        num_blocks_waiting + 1
+                    };
                     self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting + 1));
+                        .push_back((unapplied, num_blocks_waiting));
                 }
             }
         }
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index f2c25cb..93dd2ce 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -82,8 +82,7 @@ impl Time {
             absolute: true,
         }
     }
-    /// Time referencing `secs` seconds from when the event reaches audio thread. Note that the
-    /// [`GraphGen`] will discard changes that are scheduled to far into the future.
+    /// Time referencing `secs` seconds from when the event reaches audio thread.
     pub fn after(secs: Seconds) -> Self {
         Self {
             seconds: secs,
-- 
2.43.0


From 6ddcc31e7feb0e7943e1d18ae9fe6c86365d25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 29/89] fix: refuse inputs shorter than a block instead of
 reading past their end

---
 knaster_graph/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..3f9de1f 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -116,9 +116,13 @@ impl<F: Float> AudioProcessor<F> {
     }
 
     /// Produce one block of audio with the given inputs
+    ///
+    /// # Panics
+    /// If the number of inputs is not that of the graph, or an input is shorter than the block size.
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
+            assert!(slice.len() >= self.block_size);
             *ptr = slice.as_ptr();
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
-- 
2.43.0


From f74687d98af702ab66fb7b2912d855817a82d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 30/89] fix: reading or writing outside of a block or partial
 view never reaches other samples

---
 knaster_primitives/src/block.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_primitives/src/block.rs b/knaster_primitives/src/block.rs
index e65442c..2f5b99d 100644
--- a/knaster_primitives/src/block.rs
+++ b/knaster_primitives/src/block.rs
@@ -289,6 +289,7 @@ impl<'a, F: Float, T: 'a + BlockRead<Sample = F> + ?Sized> BlockRead for Partial
     }
 
     fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+        assert!(frame < self.length);
         self.block.read(channel, frame + self.start_offset)
     }
 
@@ -322,10 +323,12 @@ impl<T: Block + ?Sized> Block for PartialBlockMut<'_, T> {
     }
 
     fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+        assert!(frame < self.length);
         self.block.read(channel, frame + self.start_offset)
     }
 
     fn write(&mut self, value: Self::Sample, channel: usize, frame: usize) {
+        assert!(frame < self.length);
         self.block.write(value, channel, frame + self.start_offset);
     }
 
@@ -456,10 +459,12 @@ mod vec_block {
         }
 
         fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+            assert!(frame < self.block_size);
             self.buffer[channel * self.block_size + frame]
         }
 
         fn write(&mut self, value: Self::Sample, channel: usize, frame: usize) {
+            assert!(frame < self.block_size);
             self.buffer[channel * self.block_size + frame] = value;
         }
 
@@ -525,10 +530,12 @@ where
     }
 
     fn read(&self, channel: usize, frame: usize) -> Self::Sample {
+        assert!(frame < BLOCK_SIZE::USIZE);
         self.buffer[(channel * BLOCK_SIZE::USIZE) + frame]
     }
 
     fn write(&mut self, value: Self::Sample, channel: usize, frame: usize) {
+        assert!(frame < BLOCK_SIZE::USIZE);
         self.buffer[(channel * BLOCK_SIZE::USIZE) + frame] = value;
     }
 
-- 
2.43.0


From 090457ff00ad3c5f0098a83b66ed06e67a6bb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 31/89] fix: replaced buffers go back to the graph instead of
 being freed while rendering

---
 knaster_graph/src/graph_gen.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index a51ae36..b8e319e 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -95,7 +95,16 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             if let Ok(td_chunk) = self.new_task_data_consumer.read_chunk(num_new_task_data) {
                 for mut td in td_chunk {
                     td.apply_self_on_audio_thread(ctx, &mut self.current_task_data);
-                    let old_td = crate::core::mem::replace(&mut self.current_task_data, td);
+                    let new_buffer_allocation = td.current_buffer_allocation.take();
+                    let mut old_td = crate::core::mem::replace(&mut self.current_task_data, td);
+                    if let Some(buffer_allocation) = new_buffer_allocation {
+                        // Nothing in use refers to the old buffers any more. They go back to the
+                        // Graph with the old TaskData so that they aren't freed on this thread.
+                        old_td.current_buffer_allocation = Some(crate::core::mem::replace(
+                            &mut self._arc_buffer_allocation_ptr,
+                            buffer_allocation,
+                        ));
+                    }
                     match self.task_data_to_be_dropped_producer.push(old_td) {
                         Ok(_) => (),
                         Err(e) => match e {
@@ -179,18 +188,13 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         let TaskData {
             tasks,
             output_task,
-            current_buffer_allocation: new_buffer_allocation,
+            current_buffer_allocation: _,
             graph_input_channels_to_nodes,
             applied: _,
             ar_parameter_changes: _,
             node_task_order: _,
         } = task_data;
 
-        if let Some(buffer_allocation) = new_buffer_allocation.take() {
-            // The old buffers will be kept alive until the Arc has been dropped in the GraphGen
-            self._arc_buffer_allocation_ptr = buffer_allocation;
-        }
-
         for (node_index, graph_input_indices) in graph_input_channels_to_nodes {
             let node_in_buffers = &mut tasks[*node_index].in_buffers;
             for (graph_input, node_input) in graph_input_indices {
-- 
2.43.0


From a5d1664652aa5ed067d94c9360d7b1cd34337a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 32/89] fix: the last reference to a scheduling token is not
 freed while rendering

---
 knaster_graph/src/graph.rs      |  6 ++---
 knaster_graph/src/handle.rs     | 41 +++++++++++++++++++++++++--------
 knaster_graph/src/lib.rs        |  2 +-
 knaster_graph/src/scheduling.rs |  7 +++++-
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 171a584..d1fe593 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -9,7 +9,7 @@ use crate::core::{
 
 use crate::core::{
     collections::HashSet,
-    sync::{Arc, Mutex},
+    sync::Arc,
 };
 
 use crate::{
@@ -232,9 +232,7 @@ impl<F: Float> Graph<F> {
             rtrb::RingBuffer::new(ring_buffer_size);
 
         let graph_gen_communicator = GraphGenCommunicator {
-            scheduling_event_producer: SchedulingChannelSender(Arc::new(Mutex::new(
-                scheduling_event_producer,
-            ))),
+            scheduling_event_producer: SchedulingChannelSender::new(scheduling_event_producer),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
             next_change_flag: Arc::new(AtomicBool::new(false)),
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index cbfee84..4947078 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -16,7 +16,8 @@ use knaster_core::{
 /// no_std_compat prelude import, supporting both std and no_std
 use std::prelude::v1::*;
 
-use crate::core::sync::{Arc, Mutex};
+use crate::core::sync::atomic::AtomicBool;
+use crate::core::sync::{Arc, Mutex, Weak};
 
 use crate::SchedulingChannelProducer;
 
@@ -36,8 +37,32 @@ pub struct NodeSubset {
 
 /// This is used to send scheduling events to the audio thread.
 #[derive(Clone, Debug)]
-pub struct SchedulingChannelSender(pub(crate) Arc<Mutex<SchedulingChannelProducer>>);
+pub struct SchedulingChannelSender(Arc<Mutex<SenderState>>);
+#[derive(Debug)]
+struct SenderState {
+    producer: SchedulingChannelProducer,
+    // Keeps the allocations of tokens that were sent until the audio thread no longer uses them,
+    // so that they aren't freed there.
+    sent_tokens: Vec<Weak<AtomicBool>>,
+}
+impl SenderState {
+    fn push(&mut self, event: SchedulingEvent) -> Result<(), GraphError> {
+        if let Some(token) = &event.token {
+            self.sent_tokens.retain(|t| t.strong_count() > 0);
+            self.sent_tokens.push(token.downgrade());
+        }
+        self.producer
+            .push(event)
+            .map_err(|e| GraphError::PushChangeError(e.to_string()))
+    }
+}
 impl SchedulingChannelSender {
+    pub(crate) fn new(producer: SchedulingChannelProducer) -> Self {
+        Self(Arc::new(Mutex::new(SenderState {
+            producer,
+            sent_tokens: Vec::new(),
+        })))
+    }
     /// Send a scheduling event to the audio thread.
     ///
     /// # Errors
@@ -53,21 +78,17 @@ impl SchedulingChannelSender {
                 Ok(s) => s,
                 Err(s) => s.into_inner(),
             };
-            if sender.is_abandoned() {
+            if sender.producer.is_abandoned() {
                 // A fence might be required, see: https://docs.rs/rtrb/latest/rtrb/struct.Producer.html#method.is_abandoned
                 // std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
                 return Err(ParameterError::GraphWasFreed.into());
             }
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            sender.push(event)?;
         }
         #[cfg(not(feature = "std"))]
         {
             let mut sender = self.0.lock();
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            sender.push(event)?;
         }
         Ok(())
     }
@@ -76,7 +97,7 @@ impl SchedulingChannelSender {
     pub fn is_alive(&self) -> bool {
         #[cfg(feature = "std")]
         match self.0.lock() {
-            Ok(s) => !s.is_abandoned(),
+            Ok(s) => !s.producer.is_abandoned(),
             _ => false,
         }
         // `spin` mutexes don't have a `is_abandoned` method, so we assume true
diff --git a/knaster_graph/src/lib.rs b/knaster_graph/src/lib.rs
index b899d93..c4a9239 100644
--- a/knaster_graph/src/lib.rs
+++ b/knaster_graph/src/lib.rs
@@ -34,7 +34,7 @@ mod core {
     pub use no_std_compat::*;
     #[cfg(all(feature = "alloc", not(feature = "std")))]
     pub mod sync {
-        pub use no_std_compat::sync::{Arc, atomic};
+        pub use no_std_compat::sync::{Arc, Weak, atomic};
         pub use spin::*;
     }
 }
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index 93dd2ce..4866ea3 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -13,7 +13,7 @@
 //!
 //! 2. is mostly accomplished by using [`SchedulingToken`]
 
-use crate::core::sync::Arc;
+use crate::core::sync::{Arc, Weak};
 
 use crate::{
     core::sync::atomic::{AtomicBool, AtomicU64},
@@ -159,6 +159,11 @@ impl SchedulingToken {
         }
     }
 
+    /// A weak reference to the state of the token, which keeps its allocation.
+    pub(crate) fn downgrade(&self) -> Weak<AtomicBool> {
+        Arc::downgrade(&self.token)
+    }
+
     /// Check if the token is activated.
     pub fn is_activated(&self) -> bool {
         self.token.load(crate::core::sync::atomic::Ordering::SeqCst)
-- 
2.43.0


From ac97686f283556c61d2aa7123e044cceb2d38b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 33/89] fix: changes due in the same block are applied in time
 order

Changes scheduled for different frames of one block were applied in the order they were
sent, so that without precise timing the earliest due could be the one that remained.
---
 knaster_graph/src/graph_gen.rs | 160 +++++++++++++++++----------------
 1 file changed, 82 insertions(+), 78 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index b8e319e..b3584cf 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -45,8 +45,9 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     // The parameter changes that haven't been applied yet, and the number of
     // blocks it has stayed here without its node being in the graph. After a
     // large number of blocks it is removed to avoid filling up the queue with
-    // parameter changes for nodes that don't exist anymore.
-    pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32)>,
+    // parameter changes for nodes that don't exist anymore. Last, the frame of the current block
+    // at which it is due, if it is.
+    pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32, Option<u64>)>,
 
     pub(super) current_task_data: TaskData<F>,
     // This Arc is cloned from the Graph and exists so that if the Graph gets
@@ -117,41 +118,31 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             }
         }
         // Apply parameter changes
-        if !self.waiting_parameter_changes.is_empty() {
-            let num_waiting_parameter_changes = self.waiting_parameter_changes.len();
-            let keys = &self.current_task_data.node_task_order;
-            let tasks = &mut self.current_task_data.tasks;
-            for _i in 0..num_waiting_parameter_changes {
-                let (event, num_blocks_waiting) = self
-                    .waiting_parameter_changes
-                    .pop_front()
-                    .expect(
+        let keys = &self.current_task_data.node_task_order;
+        let tasks = &mut self.current_task_data.tasks;
+        // The number of changes due later in this block
+        let mut num_due_in_block = 0;
+        let num_waiting_parameter_changes = self.waiting_parameter_changes.len();
+        for _i in 0..num_waiting_parameter_changes {
+            let (mut event, num_blocks_waiting, _) =
+                self.waiting_parameter_changes.pop_front().expect(
                     "There should be at least waiting_parameter_changes elements in the vecdeque",
                 );
-                // Remove old changes that aren't applied in time. When a Gen is removed, but has parameter changes queued, they would otherwise pile up.
-                if num_blocks_waiting > self.blocks_to_keep_scheduled_changes {
-                    // By not pushing it back to the vecdeque, this change is removed
-                    continue;
-                }
-
-                let node_key = event.node_key;
-                if let Some(unapplied) = apply_parameter_change(
-                    event,
-                    ctx.block_size() as u64,
-                    ctx.sample_rate() as u64,
-                    ctx,
-                    keys,
-                    tasks,
-                ) {
-                    // A change for a node in the graph waits for as long as it takes to be due
-                    let num_blocks_waiting = if keys.contains(&node_key) {
-                        0
-                    } else {
-                        num_blocks_waiting + 1
-                    };
-                    self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting));
-                }
+            // Remove old changes that aren't applied in time. When a Gen is removed, but has parameter changes queued, they would otherwise pile up.
+            if num_blocks_waiting > self.blocks_to_keep_scheduled_changes {
+                // By not pushing it back to the vecdeque, this change is removed
+                continue;
+            }
+            let in_graph = keys.contains(&event.node_key);
+            let due = frames_until_due(&mut event, ctx).filter(|_| in_graph);
+            if due == Some(0) {
+                apply_parameter_change(&event, 0, ctx, keys, tasks);
+            } else {
+                num_due_in_block += due.is_some() as usize;
+                // A change for a node in the graph waits for as long as it takes to be due
+                let num_blocks_waiting = if in_graph { 0 } else { num_blocks_waiting + 1 };
+                self.waiting_parameter_changes
+                    .push_back((event, num_blocks_waiting, due));
             }
         }
 
@@ -161,22 +152,34 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             .scheduling_event_receiver
             .read_chunk(parameter_changes_waiting)
         {
-            let keys = &self.current_task_data.node_task_order;
-            let tasks = &mut self.current_task_data.tasks;
-            for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
-                    event,
-                    ctx.block_size() as u64,
-                    ctx.sample_rate() as u64,
-                    ctx,
-                    keys,
-                    tasks,
-                ) {
-                    if self.waiting_parameter_changes.len()
-                        < self.waiting_parameter_changes.capacity()
-                    {
-                        self.waiting_parameter_changes.push_back((event, 0));
+            for mut event in pm_chunk {
+                let in_graph = keys.contains(&event.node_key);
+                let due = frames_until_due(&mut event, ctx).filter(|_| in_graph);
+                let room = self.waiting_parameter_changes.len()
+                    < self.waiting_parameter_changes.capacity();
+                match due {
+                    Some(delay) if delay == 0 || !room => {
+                        apply_parameter_change(&event, delay, ctx, keys, tasks);
+                    }
+                    _ if room => {
+                        num_due_in_block += due.is_some() as usize;
+                        self.waiting_parameter_changes.push_back((event, 0, due));
                     }
+                    _ => (),
+                }
+            }
+        }
+        // Apply the changes due later in this block in time order
+        for _i in 0..num_due_in_block {
+            let next = self
+                .waiting_parameter_changes
+                .iter()
+                .enumerate()
+                .filter_map(|(i, (_, _, due))| due.map(|due| (due, i)))
+                .min();
+            if let Some((delay, i)) = next {
+                if let Some((event, _, _)) = self.waiting_parameter_changes.remove(i) {
+                    apply_parameter_change(&event, delay, ctx, keys, tasks);
                 }
             }
         }
@@ -276,45 +279,46 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
     }
 }
 
+/// The number of frames into this block at which the change should be applied, if it is due in this
+/// block. Call it once per block for every change.
 #[inline]
-fn apply_parameter_change<'a, F: Float>(
-    mut event: SchedulingEvent,
-    block_size: u64,
-    sample_rate: u64,
-    ctx: &mut AudioCtx,
-    // replace implicit 'static with 'b
-    keys: &'a [NodeKey],
-    tasks: &'a mut [Task<F>],
-) -> Option<SchedulingEvent> {
-    let mut ready_to_apply = event.token.as_ref().is_none_or(|t| t.is_activated());
+fn frames_until_due(event: &mut SchedulingEvent, ctx: &mut AudioCtx) -> Option<u64> {
+    let block_size = ctx.block_size() as u64;
+    let sample_rate = ctx.sample_rate() as u64;
     let mut delay_in_block = 0;
     if let Some(time) = &mut event.time {
         delay_in_block =
             time.to_samples_until_due(block_size, sample_rate, ctx.frame_clock(), ctx.logger());
-        ready_to_apply = ready_to_apply && (delay_in_block < block_size);
     }
+    let activated = event.token.as_ref().is_none_or(|t| t.is_activated());
+    (activated && delay_in_block < block_size).then_some(delay_in_block)
+}
 
-    let node_key = event.node_key;
-    if ready_to_apply {
-        for (key, task) in keys.iter().zip(tasks.iter_mut()) {
-            if *key == node_key {
-                let g = &mut task.ugen;
-                let changes = [event.smoothing.map(|s| s.into()), event.value];
-                for change in changes.into_iter().flatten() {
-                    if delay_in_block > 0 {
-                        g.set_delay_within_block_for_param(
-                            ctx,
-                            event.parameter,
-                            delay_in_block as u16,
-                        );
-                    }
-                    g.param_apply(ctx, event.parameter, change);
+#[inline]
+fn apply_parameter_change<F: Float>(
+    event: &SchedulingEvent,
+    delay_in_block: u64,
+    ctx: &mut AudioCtx,
+    keys: &[NodeKey],
+    tasks: &mut [Task<F>],
+) {
+    for (key, task) in keys.iter().zip(tasks.iter_mut()) {
+        if *key == event.node_key {
+            let g = &mut task.ugen;
+            let changes = [event.smoothing.map(|s| s.into()), event.value];
+            for change in changes.into_iter().flatten() {
+                if delay_in_block > 0 {
+                    g.set_delay_within_block_for_param(
+                        ctx,
+                        event.parameter,
+                        delay_in_block as u16,
+                    );
                 }
-                return None;
+                g.param_apply(ctx, event.parameter, change);
             }
+            return;
         }
     }
-    Some(event)
 }
 
 /// Safety: This impl of Send is required because of the Arc<UnsafeCell<...>> in
-- 
2.43.0


From 6cf18c06fcca70d13e487781aeb25adf89d6600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 34/89] fix: refused connections and disconnections through
 handles are logged, not a panic

A panic while the graph is locked by a handle poisoned the lock, and dropping the GraphEdit then
aborted the process, for example when to_replace would have created a cycle.
---
 knaster_graph/src/graph_edit.rs | 90 ++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index c06e1ce..8199edc 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -339,8 +339,11 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), (sink, sink_channel)) in
             Static::iter_outputs(&self.nodes).zip(Static::iter_inputs(&n.nodes))
         {
-            g.connect2_replace(source, source_channel, sink_channel, sink)
-                .expect("type safe interface should eliminate graph connection errors");
+            if let Err(e) = g.connect2_replace(source, source_channel, sink_channel, sink) {
+                log::error!(
+                    "Failed to connect {source:?}:{source_channel} to {sink:?}:{sink_channel}: {e}"
+                );
+            }
         }
         n
     }
@@ -355,8 +358,11 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), (sink, sink_channel)) in
             Static::iter_outputs(&self.nodes).zip(Static::iter_inputs(&n.nodes))
         {
-            g.connect2_feedback_replace(source, source_channel, sink_channel, sink)
-                .expect("type safe interface should eliminate graph connection errors");
+            if let Err(e) = g.connect2_feedback_replace(source, source_channel, sink_channel, sink) {
+                log::error!(
+                    "Failed to connect {source:?}:{source_channel} to {sink:?}:{sink_channel}: {e}"
+                );
+            }
         }
         n
     }
@@ -365,8 +371,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     pub fn to_graph_out(self) {
         let mut g = self.graph.write();
         for (i, (source, source_channel)) in Static::iter_outputs(&self.nodes).enumerate() {
-            g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel");
+            if let Err(e) = g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Connect the output(s) of self to the graph output(s), replacing any existing connections at
@@ -374,8 +381,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     pub fn to_graph_out_replace(self) {
         let mut g = self.graph.write();
         for (i, (source, source_channel)) in Static::iter_outputs(&self.nodes).enumerate() {
-            g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel");
+            if let Err(e) = g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
 
@@ -388,8 +396,9 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), sink_channel) in
             Static::iter_outputs(&self.nodes).zip(sink_channels.into())
         {
-            g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel.");
+            if let Err(e) = g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Connect the output(s) of self to the graph output(s), selecting graph output channels from the channels provided, and replacing any existing connections at those graph output channels.
@@ -401,31 +410,32 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
         for ((source, source_channel), sink_channel) in
             Static::iter_outputs(&self.nodes).zip(sink_channels.into())
         {
-            g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph)
-                .expect("Error connecting to graph output channel.");
+            if let Err(e) = g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph) {
+                log::error!("Failed to connect node to graph output: {e}");
+            }
         }
     }
     /// Disconnect all outputs from the specified channel.
     pub fn disconnect_output(&self, source_channel: u16) {
         let mut g = self.graph.write();
-        let source = self
-            .nodes
-            .iter_outputs()
-            .nth(source_channel as usize)
-            .expect("Output channel to disconnect from does not exist.");
-        g.disconnect_output_from_source(source.0, source.1)
-            .expect("Error disconnecting from output channel.");
+        let Some((source, channel)) = self.nodes.iter_outputs().nth(source_channel as usize) else {
+            log::error!("Output channel {source_channel} to disconnect from does not exist");
+            return;
+        };
+        if let Err(e) = g.disconnect_output_from_source(source, channel) {
+            log::error!("Failed to disconnect output channel {source_channel}: {e}");
+        }
     }
     /// Disconnect any input from the specified channel.
     pub fn disconnect_input(&self, sink_channel: u16) {
         let mut g = self.graph.write();
-        let sink = self
-            .nodes
-            .iter_inputs()
-            .nth(sink_channel as usize)
-            .expect("Input channel to disconnect does not exist.");
-        g.disconnect_input_to_sink(sink.1, sink.0)
-            .expect("Error disconnecting input channel.");
+        let Some((sink, channel)) = self.nodes.iter_inputs().nth(sink_channel as usize) else {
+            log::error!("Input channel {sink_channel} to disconnect does not exist");
+            return;
+        };
+        if let Err(e) = g.disconnect_input_to_sink(channel, sink) {
+            log::error!("Failed to disconnect input channel {sink_channel}: {e}");
+        }
     }
     /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
     /// to other handles.
@@ -616,24 +626,24 @@ impl<'a, 'b, F: Float, D: Dynamic> DH<'a, 'b, F, D> {
     /// Disconnect all outputs from the specified channel.
     pub fn disconnect_output(&self, source_channel: u16) {
         let mut g = self.graph.write();
-        let source = self
-            .nodes
-            .iter_outputs()
-            .nth(source_channel as usize)
-            .expect("Output channel to disconnect from does not exist.");
-        g.disconnect_output_from_source(source.0, source.1)
-            .expect("Error disconnecting from output channel.");
+        let Some((source, channel)) = self.nodes.iter_outputs().nth(source_channel as usize) else {
+            log::error!("Output channel {source_channel} to disconnect from does not exist");
+            return;
+        };
+        if let Err(e) = g.disconnect_output_from_source(source, channel) {
+            log::error!("Failed to disconnect output channel {source_channel}: {e}");
+        }
     }
     /// Disconnect any input from the specified channel.
     pub fn disconnect_input(&self, sink_channel: u16) {
         let mut g = self.graph.write();
-        let sink = self
-            .nodes
-            .iter_inputs()
-            .nth(sink_channel as usize)
-            .expect("Input channel to disconnect does not exist.");
-        g.disconnect_input_to_sink(sink.1, sink.0)
-            .expect("Error disconnecting input channel.");
+        let Some((sink, channel)) = self.nodes.iter_inputs().nth(sink_channel as usize) else {
+            log::error!("Input channel {sink_channel} to disconnect does not exist");
+            return;
+        };
+        if let Err(e) = g.disconnect_input_to_sink(channel, sink) {
+            log::error!("Failed to disconnect input channel {sink_channel}: {e}");
+        }
     }
     /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
     /// to other handles.
-- 
2.43.0


From d6300bb67983377d9c5ac060a7a3574514afbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 35/89] fix: inspection reports feedback edges and which nodes
 are graphs

EdgeInspection::is_feedback was always false for node inputs and
NodeInspection::is_graph always None, although both are known.
---
 knaster_graph/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index d1fe593..d5a7ef0 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1908,7 +1908,7 @@ impl<F: Float> Graph<F> {
                         },
                         from_index: edge.channel_in_source,
                         to_index: input_channel_index as u16,
-                        is_feedback: false,
+                        is_feedback: edge.is_feedback,
                     });
                 }
             }
@@ -1922,7 +1922,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From fd8e27b4a868af1dc819e3ca6dff08ec301a9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 36/89] fix: SampleDelay delays by the whole frames asked for,
 up to its maximum

A delay of the maximum length returned the current input, a longer one
underflowed, and a time of n frames could be truncated to n - 1.
---
 knaster_core_dsp/src/ugens/delay.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..6ea05cd 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -29,10 +29,11 @@ impl<F: Float> SampleDelay<F> {
             delay_samples: 0,
         }
     }
-    /// Set delay time in seconds
+    /// Set delay time in seconds, limited to the maximum delay time.
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;
+        let delay_samples = (seconds * ctx.sample_rate() as PFloat).round() as usize;
+        self.delay_samples = delay_samples.min(self.buffer.len().saturating_sub(1));
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
@@ -42,8 +43,9 @@ impl<F: Float> SampleDelay<F> {
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
-        self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+        // The sample written in the current frame needs a place in addition to the delayed ones
+        let max_delay_samples = self.max_delay_length.to_samples(sample_rate as u64) as usize;
+        self.buffer = vec![F::ZERO; max_delay_samples + 1];
         self.write_position = 0;
     }
 }
-- 
2.43.0


From f4c67ae967ac4b44b1806eecbc077a2fe8daf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 37/89] fix: AllpassInterpolator starts and clears to silence

Its state was set to one, so a fractional delay began with a click.
---
 knaster_core_dsp/src/ugens/delay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 6ea05cd..98f8f86 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -63,14 +63,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
-- 
2.43.0


From 38f5e649d7f73b177a24cbfa0c54bbace533b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 38/89] fix: AllpassDelay limits its delay time to what it can
 hold

Times at or above the maximum were ignored or underflowed, and delays of
one frame read the oldest sample instead of the previous one.
---
 knaster_core_dsp/src/ugens/delay.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 98f8f86..1189059 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -121,7 +121,7 @@ impl<F: Float> AllpassDelay<F> {
     /// Allocates internal buffer.
     pub fn init(&mut self, sample_rate: u32, _block_size: usize) {
         let max_delay_samples = self.max_delay_seconds.to_samples(sample_rate as u64);
-        self.buffer = vec![F::ZERO; max_delay_samples as usize];
+        self.buffer = vec![F::ZERO; (max_delay_samples as usize).max(1)];
     }
     /// Produce one frame from the delay and put `input` into the delay.
     pub fn process(
@@ -134,13 +134,11 @@ impl<F: Float> AllpassDelay<F> {
         self.write_and_advance(input[0]);
         [out]
     }
-    /// Set delay time in seconds
+    /// Set delay time in seconds, limited to what [`Self::set_delay_in_frames`] allows.
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
         let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
-            self.set_delay_in_frames(F::new(delay_frames));
-        }
+        self.set_delay_in_frames(F::new(delay_frames));
     }
     /// Read the current frame from the delay and allpass interpolate. Read before `write_and_advance` for the correct sample.
     #[inline]
@@ -158,12 +156,17 @@ impl<F: Float> AllpassDelay<F> {
         }
     }
     /// Set delay time in frames (f32 or f64)
+    ///
+    /// The shortest possible delay is 1 frame, since the delay is read before it is written, and
+    /// the longest is the maximum delay time. The delay time is limited to that range.
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
+        let max_frames = F::new(self.buffer.len() as f64);
+        let num_frames = num_frames.min(max_frames).max(F::ONE);
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        if self.num_frames > 1 && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
         }
-- 
2.43.0


From 583811bd0c1093dda95efd683953f7903063c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 39/89] fix: StaticSampleDelay uses its set length in block
 operations

read_block and write_block_and_advance wrapped at the whole buffer, and a
length of zero or a fraction above one made later calls panic.
---
 knaster_core_dsp/src/ugens/delay.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 1189059..26550b5 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -331,31 +331,34 @@ impl<F: Float> StaticSampleDelay<F> {
         }
     }
 
-    /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
+    /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length. The shortest delay length is 1.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.min(self.buffer.len()).max(1);
+        self.position %= self.delay_length;
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
+        let delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
             * fraction)
             .to_usize()
-            .unwrap();
+            .unwrap_or(0);
+        self.set_delay_length(delay_length);
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let read_end = self.position + block_size;
-        if read_end <= self.buffer.len() {
+        if read_end <= self.delay_length {
             output.copy_from_slice(&self.buffer[self.position..read_end]);
         } else {
             // block wraps around
             let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            output[0..(block_size - read_end)]
+                .copy_from_slice(&self.buffer[self.position..self.delay_length]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -363,17 +366,18 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_block_and_advance(&mut self, input: &[F]) {
         let block_size = input.len();
-        assert!(self.buffer.len() >= block_size);
+        assert!(self.delay_length >= block_size);
         let write_end = self.position + block_size;
-        if write_end <= self.buffer.len() {
+        if write_end <= self.delay_length {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
             let write_end = write_end % self.delay_length;
-            self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
+            self.buffer[self.position..self.delay_length]
+                .copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
-        self.position = (self.position + block_size) % self.buffer.len();
+        self.position = (self.position + block_size) % self.delay_length;
     }
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
@@ -408,7 +412,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length > block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From ca5e25ec221bbfe0673157319ad85e330a9511c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 40/89] fix: set_delay_in_frames_and_clear clears all of the
 delay

The interpolator kept its state, and a clear in progress kept muting the
new delay.
---
 knaster_core_dsp/src/ugens/delay.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index 26550b5..a1bb47f 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -195,6 +195,8 @@ impl<F: Float> AllpassDelay<F> {
         for sample in &mut self.buffer {
             *sample = F::ZERO;
         }
+        self.clear_nr_of_samples_left = 0;
+        self.allpass.clear();
         self.set_delay_in_frames(num_frames);
         // println!(
         //     "num_frames: {}, delta: {}",
-- 
2.43.0


From 362ba216e030f3f1623609d7004cf2f723fd814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 41/89] fix: EnvAsr and EnvAr restart from the current level

Restarting during the release continued from the position in the release
instead of the level reached, which made the output jump.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..440b2f1 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if let AsrState::Releasing = self.state {
+            // The attack is linear, but the release is not
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -196,8 +198,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // The attack is linear, but the release is not
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
-- 
2.43.0


From a164233b21a9b14a8b27eff547d1dba26059fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 42/89] fix: EnvAsr restarted while sustaining stays at its
 sustain level

The position had run past one at the end of the attack and was output when
the envelope was restarted.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 440b2f1..d20286a 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -64,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
-- 
2.43.0


From 0990f519fe4ceea78edb3a09a92e7ab769863ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 43/89] fix: Envelope segments without duration are not NaN,
 stopping does not overshoot

A segment of no duration multiplied zero by infinity, and stopping between
two segments extrapolated past the value of the first.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index d20286a..559b53e 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -339,6 +339,14 @@ mod alloc_envelopes {
                 value,
             }
         }
+        /// The value a time after the start of the segment, coming from the given value
+        fn value_at(&self, from_value: f64, time: f64) -> f64 {
+            if time < self.duration {
+                from_value + (time * self.reciprocal_duration) * (self.value - from_value)
+            } else {
+                self.value
+            }
+        }
     }
     /// The shape of an envelope segment
     #[derive(Copy, Clone, Debug)]
@@ -440,11 +448,7 @@ mod alloc_envelopes {
                     } else if current_segment + 1 < self.segments.len() {
                         self.from_value = self.segments[current_segment].value;
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                        out = F::new(self.from_value);
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
@@ -520,10 +524,8 @@ mod alloc_envelopes {
                         current_time,
                     } = self.state
                     {
-                        let t = current_time;
                         let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
+                        self.from_value = segment.value_at(self.from_value, current_time);
                     }
                     self.state = EnvelopeState::Stopped;
                 }
-- 
2.43.0


From d94ea7845bffd617d952fefec1ffd497718ea18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 44/89] fix: Envelope jumps to a segment from its current value

A jump in the middle of a segment went back to the value that segment
started from.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 559b53e..a82ea61 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -504,6 +504,8 @@ mod alloc_envelopes {
                             current_segment,
                             current_time,
                         } => {
+                            let segment = &self.segments[*current_segment];
+                            self.from_value = segment.value_at(self.from_value, *current_time);
                             *current_segment = jump_to_segment;
                             *current_time = 0.0;
                         }
-- 
2.43.0


From 797448610b52704cd4f3bddebf9c5841c21700da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 45/89] fix: an Envelope without segments can be triggered

Restarting it or jumping to a segment panicked.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index a82ea61..4bfbb4b 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -484,6 +484,10 @@ mod alloc_envelopes {
             .into()
         }
         fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+            // Without segments there is nothing to move through
+            if self.segments.is_empty() && index != 0 {
+                return;
+            }
             match index {
                 0 => {
                     self.time_scale = F::new(value.float().unwrap()).to_f64();
-- 
2.43.0


From 6f688ca44a194ed1e9c48db31adcc6e49f5b196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 46/89] fix: a looping Envelope keeps its time when it starts
 over

Each round took one frame more than its segments.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 4bfbb4b..0e98f64 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -458,9 +458,11 @@ mod alloc_envelopes {
                         self.from_value = self.segments[current_segment].value;
                         out = F::new(self.from_value);
                         if self.looping {
+                            let segment = &self.segments[current_segment];
                             self.state = EnvelopeState::Running {
                                 current_segment: 0,
-                                current_time: 0.,
+                                current_time: current_time - segment.duration
+                                    + (self.time_scale * self.base_scale),
                             };
                         } else {
                             self.state = EnvelopeState::Stopped;
-- 
2.43.0


From a61977d0ce2d296bd40295a63a2ebb05477189ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 47/89] fix: the phase offset of wavetable oscillators is in
 periods

An offset of 1 moved the phase by a single sample of the table.
---
 knaster_core_dsp/src/ugens/osc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..fb4d775 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -48,7 +48,8 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            let table_offset = offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64;
+            self.phase_offset = WavetablePhase(table_offset as i64 as u32);
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -131,7 +132,8 @@ mod wavetable_vec {
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            let table_offset = offset.to_f64() * TABLE_SIZE as f64 * FRACTIONAL_PART as f64;
+            self.phase_offset = WavetablePhase(table_offset as i64 as u32);
         }
         /// Reset the phase of the oscillator.
         #[param]
-- 
2.43.0


From f14c0553e570f630ab7641bbea65cf89be9c039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 48/89] fix: wavetable oscillators run backwards at negative
 frequencies

The conversion to an unsigned increment stopped them, which breaks
frequency modulation through zero.
---
 knaster_core_dsp/src/ugens/osc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index fb4d775..89e51b9 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -43,7 +43,7 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
@@ -127,7 +127,7 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
-- 
2.43.0


From 9e1acd4b8ef6e57d8e75436f8eb142fc09e5ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 49/89] fix: Phasor and SinNumeric keep their phase within a
 period

The phase grew without bound at negative frequencies (Phasor leaving its
range, SinNumeric losing precision), and at very high ones wrapping it took
many iterations or never ended.
---
 knaster_core_dsp/src/ugens/osc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 89e51b9..27d7f30 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -207,13 +207,18 @@ impl<F: Float> Phasor<F> {
     pub fn process(&mut self) -> [F; 1] {
         let out = F::new(self.phase);
         self.phase += self.step;
-        while self.phase >= 1.0 {
-            self.phase -= 1.0;
-        }
+        self.phase = wrap_phase(self.phase);
         [out]
     }
 }
 
+/// The fractional part of `phase`, at least 0 and below 1
+fn wrap_phase<F: Float>(phase: F) -> F {
+    let wrapped = phase - phase.floor();
+    // Rounds up to a full period for tiny negative phases
+    if wrapped >= F::ONE { F::ZERO } else { wrapped }
+}
+
 /// Sine wave calculated using the trigonometric function for this platform, as
 /// opposed to using a shared lookup table
 ///
@@ -265,9 +270,7 @@ impl<F: Float> SinNumeric<F> {
     pub fn process(&mut self) -> [F; 1] {
         let out = ((self.phase + self.phase_offset) * F::TAU).sin();
         self.phase += self.phase_increment;
-        if self.phase > F::ONE {
-            self.phase -= F::ONE;
-        }
+        self.phase = wrap_phase(self.phase);
         [out]
     }
 }
-- 
2.43.0


From 77a4d29b354b20779f409116ea04788d72ff49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 50/89] fix: PolyBlep runs backwards at negative frequencies

The phase became negative, where the corrections around discontinuities
reach values in the thousands.
---
 knaster_core_dsp/src/ugens/polyblep.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/polyblep.rs b/knaster_core_dsp/src/ugens/polyblep.rs
index bcceecd..abb3196 100644
--- a/knaster_core_dsp/src/ugens/polyblep.rs
+++ b/knaster_core_dsp/src/ugens/polyblep.rs
@@ -129,7 +129,9 @@ pub struct PolyBlep<F: Copy = f32> {
     waveform: Waveform,
     sample_rate: F,
     freq_in_hz: F,
+    // How much of a period passes per sample, regardless of direction
     freq_in_seconds_per_sample: F,
+    phase_step: F,
     pulse_width: F, // [0.0..1.0]
     t: F,           // The current phase [0.0..1.0) of the oscillator.
 }
@@ -142,6 +144,7 @@ impl<F: Float> PolyBlep<F> {
             sample_rate: F::ZERO,
             freq_in_hz: freq,
             freq_in_seconds_per_sample: F::ZERO,
+            phase_step: F::ZERO,
             pulse_width: F::new(0.5),
             t: F::ZERO,
         }
@@ -175,7 +178,8 @@ impl<F: Float> PolyBlep<F> {
     }
     /// Set the time per sample
     pub fn set_dt(&mut self, time: F) {
-        self.freq_in_seconds_per_sample = time;
+        self.phase_step = time;
+        self.freq_in_seconds_per_sample = time.abs();
     }
     #[inline]
     fn set_freq(&mut self, freq_in_hz: F) {
@@ -192,7 +196,7 @@ impl<F: Float> PolyBlep<F> {
 
     #[allow(missing_docs)]
     pub fn get_freq_in_hz(&self) -> F {
-        self.freq_in_seconds_per_sample * self.sample_rate
+        self.phase_step * self.sample_rate
     }
 
     /// Set the phase of this oscillator
@@ -207,7 +211,7 @@ impl<F: Float> PolyBlep<F> {
 
     #[allow(missing_docs)]
     pub fn next_sample(&mut self) -> F {
-        if self.get_freq_in_hz() >= self.sample_rate / F::new(4.) {
+        if self.get_freq_in_hz().abs() >= self.sample_rate / F::new(4.) {
             self.sin()
         } else {
             match self.waveform {
@@ -230,8 +234,8 @@ impl<F: Float> PolyBlep<F> {
     }
 
     fn inc(&mut self) {
-        self.t += self.freq_in_seconds_per_sample;
-        self.t -= bitwise_or_zero(self.t);
+        self.t += self.phase_step;
+        self.t -= self.t.floor();
     }
 
     fn get_and_inc(&mut self) -> F {
-- 
2.43.0


From dabc39acd8bfe91c3c16e9a7b52c876267564b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 51/89] fix: NonAaWavetable::set_from_buffer refuses buffers of
 another size

Reading such a table went outside of the buffer.
---
 knaster_core_dsp/src/dsp/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..7ad082d 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -118,9 +118,11 @@ mod wavetable_vec {
         }
         /// Create a [`PartialTable`] from an existing buffer.
         ///
-        /// # Errors
-        /// The buffer has to be of [`TABLE_SIZE`] length, otherwise an error will be returned.
+        /// # Panics
+        /// If the buffer is not of [`TABLE_SIZE`] length.
         pub fn set_from_buffer(&mut self, buffer: Vec<F>) {
+            // The table is read without bounds checks
+            assert_eq!(buffer.len(), TABLE_SIZE);
             // TODO: FFT of the buffer for anti-aliasing
             self.buffer = buffer;
             self.update_diff_buffer();
-- 
2.43.0


From cf2734613607d724c02379af501d525ef0deddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 52/89] fix: Seconds and Beats are always in normal form

---
 knaster_primitives/src/time.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..6b61915 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -35,13 +35,17 @@ impl Seconds {
     /// The maximum possible value of a [`Seconds`].
     pub const MAX: Self = Self {
         seconds: u32::MAX,
-        subsecond_tesimals: u32::MAX,
+        subsecond_tesimals: SUBSECOND_TESIMALS_PER_SECOND - 1,
     };
-    #[allow(missing_docs)]
+    /// Create a new [`Seconds`]. Whole seconds among the tesimals are carried over to the seconds,
+    /// saturating at [`Self::MAX`].
     pub fn new(seconds: u32, subsample_tesimals: u32) -> Self {
-        Self {
-            seconds,
-            subsecond_tesimals: subsample_tesimals,
+        match seconds.checked_add(subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND) {
+            Some(seconds) => Self {
+                seconds,
+                subsecond_tesimals: subsample_tesimals % SUBSECOND_TESIMALS_PER_SECOND,
+            },
+            None => Self::MAX,
         }
     }
     /// Convert from subsample tesimals to a Supersecond.
@@ -252,11 +256,20 @@ impl Beats {
         beats: 0,
         beat_tesimals: 0,
     };
-    #[allow(missing_docs)]
+    /// The maximum possible value of a [`Beats`].
+    pub const MAX: Self = Self {
+        beats: u32::MAX,
+        beat_tesimals: SUBBEAT_TESIMALS_PER_BEAT - 1,
+    };
+    /// Create a new [`Beats`]. Whole beats among the tesimals are carried over to the beats,
+    /// saturating at [`Self::MAX`].
     pub fn new(beats: u32, beat_tesimals: u32) -> Self {
-        Self {
-            beat_tesimals,
-            beats,
+        match beats.checked_add(beat_tesimals / SUBBEAT_TESIMALS_PER_BEAT) {
+            Some(beats) => Self {
+                beats,
+                beat_tesimals: beat_tesimals % SUBBEAT_TESIMALS_PER_BEAT,
+            },
+            None => Self::MAX,
         }
     }
     /// Returns Beats with `beats` beats and 0 tesimals
-- 
2.43.0


From 2cfbdf2ee1af77e6be1526161e5741cb9357f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 53/89] fix: conversions to Seconds and Beats saturate instead
 of wrapping

---
 knaster_primitives/src/time.rs | 36 ++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 6b61915..c48d959 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -48,19 +48,28 @@ impl Seconds {
             None => Self::MAX,
         }
     }
-    /// Convert from subsample tesimals to a Supersecond.
+    // Saturates if there are more seconds than a `Seconds` can represent
+    fn from_u64_parts(seconds: u64, subsample_tesimals: u32) -> Self {
+        match u32::try_from(seconds) {
+            Ok(seconds) => Self::new(seconds, subsample_tesimals),
+            Err(_) => Self::MAX,
+        }
+    }
+    /// Convert from subsample tesimals to a Supersecond. Saturates at [`Self::MAX`].
     pub fn from_subsample_tesimals_u64(subsample_tesimals: u64) -> Self {
-        let seconds = (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-        let subsample_tesimals =
-            (subsample_tesimals - (seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64)) as u32;
-        Self::new(seconds, subsample_tesimals)
+        let seconds = subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64;
+        let subsample_tesimals = subsample_tesimals % SUBSECOND_TESIMALS_PER_SECOND as u64;
+        Self::from_u64_parts(seconds, subsample_tesimals as u32)
     }
     /// Convert seconds and tesimals to tesimals
     pub fn to_subsample_tesimals_u64(&self) -> u64 {
         self.seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64 + self.subsecond_tesimals as u64
     }
-    #[allow(missing_docs)]
+    /// Convert from seconds in an f64. Saturates at [`Self::ZERO`] and [`Self::MAX`].
     pub fn from_secs_f64(seconds_f64: f64) -> Self {
+        if seconds_f64 >= u32::MAX as f64 + 1.0 {
+            return Self::MAX;
+        }
         let seconds = seconds_f64.floor() as u32;
         let subsample_tesimals =
             (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64) as u32;
@@ -78,13 +87,10 @@ impl Seconds {
     }
     /// Convert a number of samples at a given sample rate to a `Seconds`
     pub fn from_samples(samples: u64, sample_rate: u64) -> Self {
-        let seconds = (samples / sample_rate) as u32;
+        let seconds = samples / sample_rate;
         let subsample_tesimals =
             ((samples % sample_rate) * SUBSECOND_TESIMALS_PER_SECOND as u64 / sample_rate) as u32;
-        Self {
-            seconds,
-            subsecond_tesimals: subsample_tesimals,
-        }
+        Self::from_u64_parts(seconds, subsample_tesimals)
     }
     /// Convert to samples at a specific sample rate.
     pub fn to_samples(&self, sample_rate: u64) -> u64 {
@@ -142,7 +148,7 @@ impl From<Duration> for Seconds {
         let nanos = value.subsec_nanos();
         let conversion_factor = SUBSECOND_TESIMALS_PER_SECOND as f64 / 1_000_000_000_f64;
         let subsample_tesimals = nanos as f64 * conversion_factor;
-        Self::new(seconds as u32, subsample_tesimals as u32)
+        Self::from_u64_parts(seconds, subsample_tesimals as u32)
     }
 }
 impl PartialOrd for Seconds {
@@ -289,6 +295,9 @@ impl Beats {
     }
     /// Convert from number of beats in an f32. May be lossy depending on the value
     pub fn from_beats_f32(beats: f32) -> Self {
+        if beats >= u32::MAX as f32 + 1.0 {
+            return Self::MAX;
+        }
         let fract = beats.fract();
         Self {
             beats: beats as u32,
@@ -297,6 +306,9 @@ impl Beats {
     }
     /// Convert from number of beats in an f64. May be lossy depending on the value
     pub fn from_beats_f64(beats: f64) -> Self {
+        if beats >= u32::MAX as f64 + 1.0 {
+            return Self::MAX;
+        }
         let fract = beats.fract();
         Self {
             beats: beats as u32,
-- 
2.43.0


From f9282345ec89877442af73ac13adc3237884c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 54/89] fix: adding Seconds or Beats saturates instead of
 overflowing

---
 knaster_primitives/src/time.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index c48d959..be562dc 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -169,14 +169,12 @@ impl ops::Add<Seconds> for Seconds {
     type Output = Self;
 
     fn add(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds + rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals + rhs.subsecond_tesimals;
-        while subsample_tesimals >= SUBSECOND_TESIMALS_PER_SECOND {
-            seconds += 1;
-            subsample_tesimals -= SUBSECOND_TESIMALS_PER_SECOND;
+        // The sum of two values in normal form is less than 2 seconds of tesimals, which fits
+        let subsample_tesimals = self.subsecond_tesimals + rhs.subsecond_tesimals;
+        match self.seconds.checked_add(rhs.seconds) {
+            Some(seconds) => Seconds::new(seconds, subsample_tesimals),
+            None => Seconds::MAX,
         }
-
-        Seconds::new(seconds, subsample_tesimals)
     }
 }
 impl ops::AddAssign<Seconds> for Seconds {
@@ -378,14 +376,12 @@ impl ops::Add<Beats> for Beats {
     type Output = Self;
 
     fn add(self, rhs: Beats) -> Self::Output {
-        let mut beats = self.beats + rhs.beats;
-        let mut beat_tesimals = self.beat_tesimals + rhs.beat_tesimals;
-        while beat_tesimals >= SUBBEAT_TESIMALS_PER_BEAT {
-            beats += 1;
-            beat_tesimals -= SUBBEAT_TESIMALS_PER_BEAT;
+        // The sum of two values in normal form is less than 2 beats of tesimals, which fits
+        let beat_tesimals = self.beat_tesimals + rhs.beat_tesimals;
+        match self.beats.checked_add(rhs.beats) {
+            Some(beats) => Beats::new(beats, beat_tesimals),
+            None => Beats::MAX,
         }
-
-        Beats::new(beats, beat_tesimals)
     }
 }
 impl ops::AddAssign<Beats> for Beats {
-- 
2.43.0


From dd4fa2fb5d19148fe0c00e0acf6d50c277916e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 55/89] fix: the product of two Seconds is their product

---
 knaster_primitives/src/time.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index be562dc..c721e09 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -187,13 +187,10 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        let tesimals = self.to_subsample_tesimals_u64() as u128
+            * rhs.to_subsample_tesimals_u64() as u128
+            / SUBSECOND_TESIMALS_PER_SECOND as u128;
+        Seconds::from_subsample_tesimals_u64(u64::try_from(tesimals).unwrap_or(u64::MAX))
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0


From 5bbb3cee990a872a7172e5a077c5b7a72325c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 56/89] fix: scaling Beats by an integer is exact

---
 knaster_primitives/src/time.rs | 43 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index c721e09..6d29790 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -273,6 +273,17 @@ impl Beats {
             None => Self::MAX,
         }
     }
+    // The whole value in tesimals
+    fn tesimals(&self) -> u64 {
+        self.beats as u64 * SUBBEAT_TESIMALS_PER_BEAT as u64 + self.beat_tesimals as u64
+    }
+    // Saturates at `Self::MAX`
+    fn from_tesimals_u128(tesimals: u128) -> Self {
+        match u32::try_from(tesimals / SUBBEAT_TESIMALS_PER_BEAT as u128) {
+            Ok(beats) => Self::new(beats, (tesimals % SUBBEAT_TESIMALS_PER_BEAT as u128) as u32),
+            Err(_) => Self::MAX,
+        }
+    }
     /// Returns Beats with `beats` beats and 0 tesimals
     pub fn from_beats(beats: u32) -> Self {
         Self::new(beats, 0)
@@ -391,28 +402,16 @@ impl ops::Mul<Beats> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: Beats) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        let b1 = rhs.as_beats_f64();
-        Self::from_beats_f64(b0 * b1)
-        // let mut beats = self.beats * rhs.beats
-        //     + ((self.beats as u64 * rhs.beat_tesimals as u64) / SUBBEAT_TESIMALS_PER_BEAT as u64)
-        //         as u32;
-        // let mut beat_tesimals = (self.beat_tesimals as u64 * rhs.beat_tesimals as u64)
-        //     / SUBBEAT_TESIMALS_PER_BEAT as u64
-        //     + self.beat_tesimals as u64 * rhs.beats as u64;
-        // if beat_tesimals > SUBBEAT_TESIMALS_PER_BEAT as u64 {
-        //     beats += (beat_tesimals / SUBBEAT_TESIMALS_PER_BEAT as u64) as u32;
-        //     beat_tesimals %= SUBBEAT_TESIMALS_PER_BEAT as u64;
-        // }
-        // Beats::new(beats, beat_tesimals as u32)
+        Self::from_tesimals_u128(
+            self.tesimals() as u128 * rhs.tesimals() as u128 / SUBBEAT_TESIMALS_PER_BEAT as u128,
+        )
     }
 }
 impl ops::Mul<f32> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: f32) -> Self::Output {
-        let b0 = self.as_beats_f32();
-        Self::from_beats_f32(b0 * rhs)
+        self * rhs as f64
     }
 }
 impl ops::Mul<f64> for Beats {
@@ -427,32 +426,28 @@ impl ops::Mul<u64> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        Self::from_tesimals_u128(self.tesimals() as u128 * rhs as u128)
     }
 }
 impl ops::Mul<u32> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u32) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        Self::from_tesimals_u128(self.tesimals() as u128 * rhs as u128)
     }
 }
 impl ops::Mul<u16> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u16) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        Self::from_tesimals_u128(self.tesimals() as u128 * rhs as u128)
     }
 }
 impl ops::Mul<u8> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u8) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        Self::from_tesimals_u128(self.tesimals() as u128 * rhs as u128)
     }
 }
 impl ops::MulAssign<Beats> for Beats {
-- 
2.43.0


From 3030a9775dece49def640c6a0abf43b5178dc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 57/89] fix: Beats::from_fractional_beats is precise for any
 fraction

---
 knaster_primitives/src/time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 6d29790..48a1f42 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -296,8 +296,9 @@ impl Beats {
     /// Fractional_beats must be in the range [0, FRACTION-1]
     pub fn from_fractional_beats<const FRACTION: u32>(beats: u32, fractional_beats: u32) -> Self {
         assert!(fractional_beats < FRACTION);
-        let tesimals = (SUBBEAT_TESIMALS_PER_BEAT / FRACTION) * fractional_beats;
-        Self::new(beats, tesimals)
+        let tesimals =
+            SUBBEAT_TESIMALS_PER_BEAT as u64 * fractional_beats as u64 / FRACTION as u64;
+        Self::new(beats, tesimals as u32)
     }
     /// Convert from number of beats in an f32. May be lossy depending on the value
     pub fn from_beats_f32(beats: f32) -> Self {
-- 
2.43.0


From 5fe17b090c70e89eeace48c2547677cf8f85360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 58/89] fix: log messages that don't fit in the channel are
 dropped whole

---
 knaster_core/src/log.rs | 54 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..010266f 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -4,6 +4,8 @@
 //!
 //! Messages are sent as a chain of `ArLogMessage` values. The chain is terminated with
 //! `ArLogMessage::End`. Messages are sent in a preallocated channel.
+extern crate alloc;
+use alloc::vec::Vec;
 use core::{fmt::Display, mem::MaybeUninit};
 
 use knaster_primitives::{
@@ -231,7 +233,10 @@ impl<N: Size> ArLogReceiver<N> {
                 array,
             ))
         };
-        (ArLogSender::RingBuffer(tx), ArLogReceiver { receivers })
+        (
+            ArLogSender::RingBuffer(RingBufferSender::new(tx, capacity)),
+            ArLogReceiver { receivers },
+        )
     }
     /// Returns the number of receiver channels this [`ArLogReceiver`] receivs from.
     pub fn channels(&self) -> usize {
@@ -244,10 +249,48 @@ impl<N: Size> ArLogReceiver<N> {
 /// [`ArLogSender`] for a non real-time context, e.g. in testing.
 pub enum ArLogSender {
     /// Logs via a ring buffer to an [`ArLogReceiver`].
-    RingBuffer(rtrb::Producer<ArLogMessage>),
+    RingBuffer(RingBufferSender),
     /// Logs to the `log` scaffolding from the `log` crate.
     Log,
 }
+/// The sending end of one channel of an [`ArLogReceiver`].
+///
+/// Collects a message chain until its end and then sends it as a whole, so that a chain that
+/// doesn't fit in the channel is dropped as a whole.
+pub struct RingBufferSender {
+    producer: rtrb::Producer<ArLogMessage>,
+    // The message chain being sent. Preallocated to the capacity of the channel.
+    pending: Vec<ArLogMessage>,
+    capacity: usize,
+    // The current chain is longer than the capacity of the channel
+    overflow: bool,
+}
+impl RingBufferSender {
+    fn new(producer: rtrb::Producer<ArLogMessage>, capacity: usize) -> Self {
+        Self {
+            producer,
+            pending: Vec::with_capacity(capacity),
+            capacity,
+            overflow: false,
+        }
+    }
+    fn send(&mut self, message: ArLogMessage) {
+        if self.pending.len() < self.capacity {
+            self.pending.push(message);
+        } else {
+            self.overflow = true;
+        }
+        if message.is_end() {
+            if !self.overflow {
+                if let Ok(chunk) = self.producer.write_chunk_uninit(self.pending.len()) {
+                    chunk.fill_from_iter(self.pending.iter().copied());
+                }
+            }
+            self.pending.clear();
+            self.overflow = false;
+        }
+    }
+}
 impl ArLogSender {
     /// Create a fallback `ArLogSender` which logs via the `log` crate instead of to an
     /// `ArLogReceiver`. See the `log` crate for more info on how to receive the log messages.
@@ -256,11 +299,12 @@ impl ArLogSender {
     }
     /// Send a single log message. It is recommended to use the `rt_log` macro instead, since it
     /// is more convenient and automatically adds the `End` message to the end of a chain.
+    ///
+    /// A message chain is sent when its `End` message is. If there isn't room for the whole chain
+    /// in the channel it is dropped.
     pub fn send(&mut self, message: ArLogMessage) {
         match self {
-            ArLogSender::RingBuffer(sender) => {
-                sender.push(message).ok();
-            }
+            ArLogSender::RingBuffer(sender) => sender.send(message),
             ArLogSender::Log => log::warn!("{}", message),
         }
     }
-- 
2.43.0


From 0c600d4b14bb17f54ea435fcab24233f80775d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 59/89] fix: removing the smoothing of a parameter keeps the
 value it was given

---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index a3d0e88..94cb3d5 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -200,6 +200,14 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 }
             }
             ParameterValue::Smoothing(smoothing, rate) => {
+                if matches!(smoothing, ParameterSmoothing::None)
+                    && self.smoothing_state[index].is_moving()
+                {
+                    // The ramp stops at the value reached, which may not have been applied yet
+                    let reached = self.smoothing_state[index].current_value();
+                    self.ugen
+                        .param_apply(ctx, index, ParameterValue::Float(reached));
+                }
                 self.set_smoothing(index, smoothing, rate, ctx.sample_rate() as f64)
             }
         }
@@ -293,6 +301,10 @@ impl ParameterSmoothingState {
             }
         }
     }
+    /// Returns true if the parameter hasn't reached its end value yet.
+    fn is_moving(&self) -> bool {
+        matches!(self, ParameterSmoothingState::Linear { done: false, .. })
+    }
     /// Returns true if the parameter needs to be modulated at audio rate this
     /// block.
     pub fn has_new_ar_value(&self) -> bool {
-- 
2.43.0


From 0e93cedc7776bdc0e86f01e2d932727d5d6383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 60/89] fix: an empty multi channel buffer has room for all of
 its channels

---
 knaster_core_dsp/src/dsp/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..18480a3 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -45,10 +45,10 @@ pub struct Buffer<F: Copy> {
 }
 
 impl<F: Float> Buffer<F> {
-    /// Create an empty buffer with the specified options
+    /// Create an empty (silent) buffer of `size` frames with the specified options
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
-- 
2.43.0


From c7766a02c2820694b99dd0bd70d9f67c25a11269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 61/89] fix: interpolated buffer reads stay within the buffer's
 samples

---
 knaster_core_dsp/src/dsp/buffer.rs | 44 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index 18480a3..fa2d6d6 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -81,32 +81,40 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
-    /// Linearly interpolate between the value in between to samples
+    /// Linearly interpolate between the value in between to samples. The frame following the last
+    /// one is the first one. Positions outside of the buffer and channels it doesn't have read as
+    /// zero.
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
-        let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        // Excludes NaN and everything that would be saturated by the conversion to an integer
+        if !(index >= F::ZERO) {
+            return F::ZERO;
+        }
+        match index.to_usize() {
+            Some(frame) => self.interp_frame(frame, index.fract(), channel),
+            None => F::ZERO,
         }
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
-    /// indexing is necessary for long buffers.
+    /// indexing is necessary for long buffers. The frame following the last one is the first one.
+    /// Positions outside of the buffer and channels it doesn't have read as zero.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
-        let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        if !(index >= 0.0) {
+            return F::ZERO;
+        }
+        self.interp_frame(index as usize, F::new(index.fract()), channel)
+    }
+    /// Interpolate between `frame` and the frame that follows it.
+    #[inline]
+    fn interp_frame(&self, frame: usize, mix: F, channel: usize) -> F {
+        let frames = self.num_frames as usize;
+        if frame >= frames || channel >= self.num_channels {
+            return F::ZERO;
         }
+        let next = if frame + 1 < frames { frame + 1 } else { 0 };
+        self.buffer[frame * self.num_channels + channel] * (F::ONE - mix)
+            + self.buffer[next * self.num_channels + channel] * mix
     }
     /// Get the samples for all channels at the index.
     #[inline]
-- 
2.43.0


From d27dd33e56ae3f969b49a1081e981bf3700c1caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 62/89] fix: BufferReader processes the part of the block it is
 asked to

---
 knaster_core_dsp/src/ugens/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..f70c74c 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -158,7 +158,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     {
         let mut stop_sample = None;
         if !self.finished {
-            for i in 0..ctx.block_size() {
+            for i in 0..ctx.frames_to_process() {
                 for chan in 0..Channels::USIZE {
                     let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
                     output.write(sample, chan, i);
-- 
2.43.0


From a81c85cf2786dbaf2b3e747514984ca2b7999f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 63/89] fix: a finished BufferReader is silent without logging
 an error every block

---
 knaster_core_dsp/src/ugens/buffer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index f70c74c..56874fa 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -6,7 +6,7 @@ use crate::core::{marker::PhantomData, sync::Arc};
 
 use knaster_core::{
     AudioCtx, Float, PFloat, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
-    rt_log, typenum::U0,
+    typenum::U0,
 };
 
 use crate::dsp::buffer::Buffer;
@@ -179,7 +179,6 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             }
         } else {
             // Output zeroes if we're finished
-            rt_log!(ctx.logger(); "Error: BufferReader: buffer doesn't exist in Resources");
             stop_sample = Some(0);
         }
         if let Some(stop_sample) = stop_sample {
-- 
2.43.0


From aa7195f848f776cf064512fe44475492417b6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 64/89] fix: BufferReader reports the same completion frame
 when run sample by sample

---
 knaster_core_dsp/src/ugens/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 56874fa..fefae5e 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -140,7 +140,8 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             if self.looping {
                 self.reset();
             } else {
-                flags.mark_done(0);
+                // The frame after this one is the first silent one
+                flags.mark_done(1);
             }
         }
         output
-- 
2.43.0


From 7448b7327156dffbadbcf2570cb2509002fd40fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 65/89] fix: BufferReader sections are not shortened by the
 conversion from seconds

---
 knaster_core_dsp/src/ugens/buffer.rs | 29 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index fefae5e..83c6c99 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -5,7 +5,7 @@
 use crate::core::{marker::PhantomData, sync::Arc};
 
 use knaster_core::{
-    AudioCtx, Float, PFloat, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
+    AudioCtx, Float, PFloat, SUBSECOND_TESIMALS_PER_SECOND, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
     typenum::U0,
 };
 
@@ -56,6 +56,18 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             _marker: PhantomData,
         }
     }
+    /// Seconds to frames of the buffer. A time that is a whole number of frames except for the
+    /// resolution of [`Seconds`] and rounding errors gives that number of frames.
+    fn seconds_to_frames(&self, seconds: f64) -> f64 {
+        let frames = seconds * self.buffer.sample_rate();
+        let tesimal = self.buffer.sample_rate() / SUBSECOND_TESIMALS_PER_SECOND as f64;
+        let nearest = frames.round();
+        if (frames - nearest).abs() <= tesimal {
+            nearest
+        } else {
+            frames
+        }
+    }
     /// Jump back to the start of the buffer
     fn reset(&mut self) {
         self.jump_to(self.start_frame);
@@ -84,22 +96,19 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn start_s(&mut self, start_s: PFloat) {
-        let start_time = Seconds::from_secs_f64(start_s);
-        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
+        self.start_frame = self.seconds_to_frames(start_s);
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = self.seconds_to_frames(duration_s);
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn end_s(&mut self, end_s: PFloat) {
-        let end_time = Seconds::from_secs_f64(end_s);
-        self.end_frame = end_time.to_samples_f64(self.buffer.sample_rate());
+        self.end_frame = self.seconds_to_frames(end_s);
     }
     #[param]
     #[allow(missing_docs)]
@@ -109,10 +118,8 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.base_rate = self.buffer.buf_rate_scale(sample_rate);
-        self.start_frame =
-            Seconds::from_secs_f64(self.start_frame).to_samples_f64(self.buffer.sample_rate());
-        self.dur_frame =
-            Seconds::from_secs_f64(self.dur_frame).to_samples_f64(self.buffer.sample_rate());
+        self.start_frame = self.seconds_to_frames(self.start_frame);
+        self.dur_frame = self.seconds_to_frames(self.dur_frame);
         self.end_frame = self.start_frame + self.dur_frame;
         self.jump_to(self.start_frame);
     }
-- 
2.43.0


From cbd800450660d0975c8ff96f329dd13ced87d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 66/89] fix: BufferReader ends at the end of the buffer if the
 section extends past it

---
 knaster_core_dsp/src/ugens/buffer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 83c6c99..3f86266 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -68,6 +68,10 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             frames
         }
     }
+    /// The frame playback ends before: the end of the section or of the buffer
+    fn stop_frame(&self) -> f64 {
+        self.end_frame.min(self.buffer.num_frames())
+    }
     /// Jump back to the start of the buffer
     fn reset(&mut self) {
         self.jump_to(self.start_frame);
@@ -142,7 +146,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             output[chan] = sample;
         }
         self.read_pointer += self.base_rate * self.rate;
-        if self.read_pointer >= self.end_frame {
+        if self.read_pointer >= self.stop_frame() {
             self.finished = true;
             if self.looping {
                 self.reset();
@@ -172,7 +176,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                     output.write(sample, chan, i);
                 }
                 self.read_pointer += self.base_rate * self.rate;
-                if self.read_pointer >= self.end_frame {
+                if self.read_pointer >= self.stop_frame() {
                     self.finished = true;
                     if self.looping {
                         self.reset();
-- 
2.43.0


From 721ebda2f1cd25e59f3c7bfb4825a87280c4eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 67/89] fix: a negative BufferReader duration is the length of
 the buffer

---
 knaster_core_dsp/src/ugens/buffer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 3f86266..5c4beb3 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -68,6 +68,15 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             frames
         }
     }
+    /// Set the end of the section from its start and duration
+    fn update_end_frame(&mut self) {
+        let duration = if self.dur_frame < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            self.dur_frame
+        };
+        self.end_frame = self.start_frame + duration;
+    }
     /// The frame playback ends before: the end of the section or of the buffer
     fn stop_frame(&self) -> f64 {
         self.end_frame.min(self.buffer.num_frames())
@@ -101,13 +110,13 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[allow(missing_docs)]
     pub fn start_s(&mut self, start_s: PFloat) {
         self.start_frame = self.seconds_to_frames(start_s);
-        self.end_frame = self.start_frame + self.dur_frame;
+        self.update_end_frame();
     }
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
         self.dur_frame = self.seconds_to_frames(duration_s);
-        self.end_frame = self.start_frame + self.dur_frame;
+        self.update_end_frame();
     }
     #[param]
     #[allow(missing_docs)]
@@ -124,7 +133,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         self.base_rate = self.buffer.buf_rate_scale(sample_rate);
         self.start_frame = self.seconds_to_frames(self.start_frame);
         self.dur_frame = self.seconds_to_frames(self.dur_frame);
-        self.end_frame = self.start_frame + self.dur_frame;
+        self.update_end_frame();
         self.jump_to(self.start_frame);
     }
 
-- 
2.43.0


From 111f5710ba4c50e2fa3b8d4498be6a09f3774ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 68/89] fix: a looping BufferReader doesn't lose the fraction
 of a frame at the end of the loop

---
 knaster_core_dsp/src/ugens/buffer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 5c4beb3..e7d55ae 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -85,6 +85,16 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     fn reset(&mut self) {
         self.jump_to(self.start_frame);
     }
+    /// Continue from the start of the section after reaching its end. The fraction of a frame that
+    /// the pointer is past the end is kept or the loop would be longer than the section.
+    fn wrap(&mut self) {
+        let length = self.stop_frame() - self.start_frame;
+        let past_end = self.read_pointer - self.stop_frame();
+        self.reset();
+        if length > 0.0 && past_end.is_finite() {
+            self.read_pointer += past_end % length;
+        }
+    }
     /// Jump to a specific point in the buffer in samples
     fn jump_to(&mut self, new_pointer_pos: f64) {
         self.read_pointer = new_pointer_pos;
@@ -158,7 +168,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         if self.read_pointer >= self.stop_frame() {
             self.finished = true;
             if self.looping {
-                self.reset();
+                self.wrap();
             } else {
                 // The frame after this one is the first silent one
                 flags.mark_done(1);
@@ -188,7 +198,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
                 if self.read_pointer >= self.stop_frame() {
                     self.finished = true;
                     if self.looping {
-                        self.reset();
+                        self.wrap();
                     } else {
                         flags.mark_done((i + 1) as u32);
                     }
-- 
2.43.0


From 0cc82775c1351f20bc40975a80a871542cc3cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 69/89] fix: an unreadable sound file is an error instead of a
 panic

---
 knaster_core_dsp/src/dsp/buffer.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index fa2d6d6..a95e46b 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -162,7 +162,7 @@ impl<F: Float> Buffer<F> {
     pub fn from_sound_file(path: impl Into<PathBuf>) -> Result<Self, BufferError> {
         let path = path.into();
         let mut buffer = Vec::new();
-        let inp_file = std::fs::File::open(&path).expect("Buffer: failed to open file!");
+        let inp_file = std::fs::File::open(&path).map_err(SymphoniaError::IoError)?;
         // hint to the format registry of the decoder what file format it might be
         let mut hint = Hint::new();
         // Provide the file extension as a hint.
@@ -191,7 +191,7 @@ impl<F: Float> Buffer<F> {
                     .tracks()
                     .iter()
                     .find(|t| t.codec_params.codec != CODEC_TYPE_NULL)
-                    .expect("no supported audio tracks");
+                    .ok_or(SymphoniaError::Unsupported("no supported audio tracks"))?;
                 // Set the decoder options.
                 let decode_options = DecoderOptions {
                     ..Default::default()
@@ -199,8 +199,7 @@ impl<F: Float> Buffer<F> {
 
                 // Create a decoder for the stream.
                 let mut decoder = symphonia::default::get_codecs()
-                    .make(&track.codec_params, &decode_options)
-                    .expect("unsupported codec");
+                    .make(&track.codec_params, &decode_options)?;
                 let codec_params = track.codec_params.clone();
                 // Store the track identifier, it will be used to filter packets.
                 let track_id = track.id;
@@ -222,11 +221,7 @@ impl<F: Float> Buffer<F> {
                                 // println!("{e}");
                                 break;
                             }
-                            SymphoniaError::DecodeError(_) => todo!(),
-                            SymphoniaError::SeekError(_) => todo!(),
-                            SymphoniaError::Unsupported(_) => todo!(),
-                            SymphoniaError::LimitError(_) => todo!(),
-                            SymphoniaError::ResetRequired => todo!(),
+                            err => return Err(err.into()),
                         },
                     };
 
-- 
2.43.0


From 91a2ead10f00dd727b231d2ccdb17176b8574733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 70/89] fix: the bell filter boosts at its cutoff frequency at
 any gain

---
 knaster_core_dsp/src/ugens/svf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/svf.rs b/knaster_core_dsp/src/ugens/svf.rs
index e39b7b1..35407c5 100644
--- a/knaster_core_dsp/src/ugens/svf.rs
+++ b/knaster_core_dsp/src/ugens/svf.rs
@@ -207,7 +207,7 @@ impl<F: Float> SvfFilter<F> {
             }
             SvfFilterType::Bell => {
                 let amp = F::new(10.0).powf(gain_db / F::new(40.));
-                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();
+                let g = ((F::PI * cutoff) / sample_rate).tan();
                 let k = F::ONE / (q * amp);
                 self.a1 = F::ONE / (F::ONE + g * (g + k));
                 self.a2 = g * self.a1;
-- 
2.43.0


From 67f6e0db0a01f4ea6b294d04ea94c7b2b0a8bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 71/89] fix: RandomLin produces new values at the frequency it
 is set to

---
 knaster_core_dsp/src/ugens/noise.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index 0cf852d..e681bb8 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -187,7 +187,6 @@ impl<F: Float> RandomLin<F> {
         let new = F::new(self.rng.f32());
         self.current_value = old_target;
         self.current_change_width = new - old_target;
-        self.phase = F::new(0.0);
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.freq_to_phase_inc = F::ONE / F::from(sample_rate).unwrap();
@@ -201,6 +200,9 @@ impl<F: Float> RandomLin<F> {
 
         if self.phase >= F::ONE {
             self.new_value();
+            // What is past the end of the ramp is part of the next one, or ramps would be
+            // lengthened to whole frames.
+            self.phase = self.phase.fract();
         }
         [out]
     }
-- 
2.43.0


From eeaeaeaa9772680cca75ffe036876633b82f0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 72/89] fix: RandomLin stays within its range at negative
 frequencies

---
 knaster_core_dsp/src/ugens/noise.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index e681bb8..47ca66a 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -191,7 +191,7 @@ impl<F: Float> RandomLin<F> {
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.freq_to_phase_inc = F::ONE / F::from(sample_rate).unwrap();
         // freq is stored in phase_step until init
-        self.phase_step *= self.freq_to_phase_inc;
+        self.phase_step = self.phase_step.abs() * self.freq_to_phase_inc;
         self.new_value();
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags) -> [F; 1] {
@@ -213,7 +213,7 @@ impl<F: Float> RandomLin<F> {
             // freq is stored in phase_step until init
             self.phase_step = F::new(value);
         } else {
-            self.phase_step = F::new(value) * self.freq_to_phase_inc;
+            self.phase_step = F::new(value).abs() * self.freq_to_phase_inc;
         }
     }
 }
-- 
2.43.0


From 8b36cae76ad064134ab4c1e377ed95aa81018b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 73/89] fix: DoneOnTrig is done once per trigger

---
 knaster_core_dsp/src/ugens/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..af40a29 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -27,6 +27,7 @@ impl<F: Float> DoneOnTrig<F> {
     #[allow(missing_docs)]
     pub fn process(&mut self, flags: &mut UGenFlags, _input: [F; 0]) -> [F; 0] {
         if self.triggered {
+            self.triggered = false;
             flags.mark_done(0);
         }
         []
-- 
2.43.0


From b2da163a288265183044d5df06d06d40d0e69640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 74/89] fix: LogProbe logs every N samples, not every N + 1

---
 knaster_core_dsp/src/ugens/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index af40a29..dae8ee0 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -93,7 +93,7 @@ impl<F: Float> LogProbe<F> {
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 0] {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
-            self.sample_counter = self.samples_between_logs;
+            self.sample_counter = self.samples_between_logs.saturating_sub(1);
         } else {
             self.sample_counter -= 1;
         }
-- 
2.43.0


From 399d36144ec545140260935f1f89937e3604c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 75/89] fix: Galactic doesn't overflow on samples of 2 and
 above

---
 knaster_airwindows/src/galactic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index fba545c..6cbf63b 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -366,7 +366,7 @@ impl<F: Float> Galactic<F> {
             input_sample_l += F::new(
                 ((fpd_l as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_l + 62) as f64),
+                    * (exp_l as f64 + 62.).exp2(),
             );
             self.fpd_l = fpd_l;
 
@@ -378,7 +378,7 @@ impl<F: Float> Galactic<F> {
             input_sample_r += F::new(
                 ((fpd_r as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_r + 62) as f64),
+                    * (exp_r as f64 + 62.).exp2(),
             );
             self.fpd_r = fpd_r;
 
@@ -388,13 +388,13 @@ impl<F: Float> Galactic<F> {
     }
 }
 
-fn frexp(s: f32) -> (f32, u32) {
+fn frexp(s: f32) -> (f32, i32) {
     if 0.0 == s {
         (s, 0)
     } else {
         let lg = s.abs().log2();
         let x = (lg - lg.floor() - 1.0).exp2();
         let exp = lg.floor() + 1.0;
-        (s.signum() * x, exp as u32)
+        (s.signum() * x, exp as i32)
     }
 }
-- 
2.43.0


From bca134bd4bf108542d6c262d270b054becfd9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 76/89] fix: Galactic's filters are stable at low sample rates

---
 knaster_airwindows/src/galactic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index 6cbf63b..701a5b6 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -177,6 +177,8 @@ impl<F: Float> Galactic<F> {
         let attenuate = (F::ONE - (regen / F::new(0.125))) * F::new(1.333); // 1.33 if regen is high / replace is low
         let lowpass =
             (F::new(1.00001) - (F::ONE - self.brightness)).powi(2) / (self.overallscale).sqrt(); // (0.00001 + Brightness).powi(2)/overallscale.sqrt()
+        // Above 1 the lowpass filters are not lowpass filters, and above 2 they are unstable
+        let lowpass = lowpass.min(F::ONE);
         let drift = self.detune.powi(3) * F::new(0.001); // Detune.powi(3) * 0.001
         let size = (self.bigness * F::new(0.9)) + F::new(0.1);
         let wet = F::ONE - (F::ONE - self.wet).powi(3);
-- 
2.43.0


From ba816c3f9195e8f0a2ff8ee5bb9d8698dffd697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 77/89] fix: UGen::param reports a value of the wrong type

---
 knaster_core/src/parameters/types.rs |  2 +-
 knaster_core/src/ugen.rs             | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/knaster_core/src/parameters/types.rs b/knaster_core/src/parameters/types.rs
index 0dd1c70..a79a3d9 100644
--- a/knaster_core/src/parameters/types.rs
+++ b/knaster_core/src/parameters/types.rs
@@ -6,7 +6,7 @@ use crate::{PInteger, PIntegerConvertible, Rate, UGen};
 use super::{PFloat, PTrigger};
 
 /// The type of a [`UGen`] parameter
-#[derive(Copy, Clone)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum ParameterType {
     #[allow(missing_docs)]
     Float,
diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index f45b1d9..3c2cf84 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -377,23 +377,23 @@ pub trait UGen {
         param: impl Into<Param>,
         value: impl Into<ParameterValue>,
     ) -> Result<(), ParameterError> {
-        match param.into() {
+        let index = match param.into() {
             Param::Index(i) => {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
-                Ok(())
-            }
-            Param::Desc(desc) => {
-                for (i, d) in Self::param_descriptions().into_iter().enumerate() {
-                    if d == desc {
-                        self.param_apply(ctx, i, value.into());
-                        return Ok(());
-                    }
-                }
-                Err(ParameterError::DescriptionNotFound(desc))
+                i
             }
+            Param::Desc(desc) => Self::param_descriptions()
+                .iter()
+                .position(|d| *d == desc)
+                .ok_or(ParameterError::DescriptionNotFound(desc))?,
+        };
+        let value = value.into();
+        if value.ty() != Self::param_types()[index] {
+            return Err(ParameterError::WrongParameterType);
         }
+        self.param_apply(ctx, index, value);
+        Ok(())
     }
 }
-- 
2.43.0


From 851b139d1dde18f8eff6bc310013162a726422d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 78/89] fix: a smoothing change sent to a node without
 smoothing is ignored instead of panicking

---
 knaster_airwindows/src/galactic.rs         |  8 ++++++--
 knaster_core_dsp/src/ugens/envelopes.rs    | 10 ++++++++--
 knaster_core_dsp/src/wrappers_core/math.rs |  8 +++++++-
 knaster_macros/src/lib.rs                  |  1 +
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index 701a5b6..32ed2b0 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -6,7 +6,7 @@
 // Ported code: Copyright 2023 Erik Natanael Gustafsson
 
 use knaster_core::{
-    AudioCtx, Float, ParameterHint, UGen,
+    AudioCtx, Float, ParameterHint, UGen, rt_log,
     typenum::{U2, U5},
 };
 use knaster_core_dsp::{delay::StaticSampleDelay, noise::next_randomness_seed};
@@ -121,10 +121,14 @@ impl<F: Float> UGen for Galactic<F> {
 
     fn param_apply(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         index: usize,
         value: knaster_core::ParameterValue,
     ) {
+        if let knaster_core::ParameterValue::Smoothing(_, _) = value {
+            rt_log!(ctx.logger(); "Error setting parameter smoothing for Galactic, wrapper does not exist. Index: ", index);
+            return;
+        }
         match index {
             Self::REPLACE => self.replace = value.f().unwrap(),
             Self::DETUNE => self.detune = value.f().unwrap(),
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 0e98f64..1fef4ff 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -316,7 +316,9 @@ mod alloc_envelopes {
 
     use core::marker::PhantomData;
 
-    use knaster_core::{AudioCtx, PInteger, ParameterHint, ParameterValue, UGen, UGenFlags};
+    use knaster_core::{
+        AudioCtx, PInteger, ParameterHint, ParameterValue, UGen, UGenFlags, rt_log,
+    };
     use knaster_core::{
         Float, Frame,
         numeric_array::NumericArray,
@@ -485,7 +487,11 @@ mod alloc_envelopes {
             ]
             .into()
         }
-        fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+        fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
+            if let ParameterValue::Smoothing(_, _) = value {
+                rt_log!(ctx.logger(); "Error setting parameter smoothing for Envelope, wrapper does not exist. Index: ", index);
+                return;
+            }
             // Without segments there is nothing to move through
             if self.segments.is_empty() && index != 0 {
                 return;
diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index b7cde65..51565cc 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -2,6 +2,7 @@ use crate::core::ops::Add;
 use knaster_core::{
     AudioCtx, Float, FloatMethods, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
     numeric_array::NumericArray,
+    rt_log,
     typenum::{Add1, Unsigned, bit::B1},
 };
 
@@ -91,7 +92,12 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.value = T::Sample::new(value.float().unwrap());
+            match value {
+                ParameterValue::Smoothing(_, _) => {
+                    rt_log!(ctx.logger(); "Error setting parameter smoothing for WrMul, wrapper does not exist. Index: ", index)
+                }
+                value => self.value = T::Sample::new(value.float().unwrap()),
+            }
         } else {
             T::param_apply(&mut self.ugen, ctx, index, value)
         }
diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..50a9861 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -757,6 +757,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0


From 3cdc241a8605f56c4bdce90dd61bfe49e7a9d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 79/89] fix: the range of an enumerated parameter is inclusive
 and follows the values of the variants

---
 knaster_core/src/parameters.rs |  4 ++--
 knaster_macros/src/lib.rs      | 37 ++++++++++++++++------------------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/knaster_core/src/parameters.rs b/knaster_core/src/parameters.rs
index 95955a0..99ffe45 100644
--- a/knaster_core/src/parameters.rs
+++ b/knaster_core/src/parameters.rs
@@ -35,7 +35,7 @@ impl PInteger {
 pub trait PIntegerConvertible: From<PInteger> + Into<PInteger> {
     // fn to_pinteger(self) -> PInteger;
     // fn from_pinteger(val: PInteger) -> Self;
-    /// The range of values that are valid for the type converted to/from a PInteger.
+    /// The inclusive range of values that are valid for the type converted to/from a PInteger.
     fn pinteger_range() -> (PInteger, PInteger);
     /// Descriptions of each value of a PInteger, if any.
     fn pinteger_descriptions(v: PInteger) -> Option<&'static str>;
@@ -213,7 +213,7 @@ impl PIntegerHint {
     /// Returns all the descriptions of the values for this parameter.
     pub fn descriptions(&self) -> Option<crate::core::vec::Vec<(PInteger, String)>> {
         self.value_descriptions.map(|func| {
-            (self.range.0.0..self.range.1.0)
+            (self.range.0.0..=self.range.1.0)
                 .map(|pi| {
                     (
                         PInteger(pi),
diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 50a9861..f8f0768 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -22,22 +22,16 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
 
     let ident = input.ident;
 
-    let (len, descriptions) = match input.data {
-        syn::Data::Enum(enum_item) => {
-            let descriptions = enum_item
-                .variants
-                .iter()
-                .map(|v| v.ident.to_string())
-                .collect::<Vec<_>>();
-            (enum_item.variants.len(), descriptions)
-        }
+    let variants = match input.data {
+        syn::Data::Enum(enum_item) => enum_item
+            .variants
+            .into_iter()
+            .map(|v| v.ident)
+            .collect::<Vec<_>>(),
         _ => panic!("KnasterIntegerParameter only works on Enums"),
     };
-    let description_matches = descriptions.iter().enumerate().map(|(i, d)| {
-        quote! {
-            PInteger(#i) => Some(#d),
-        }
-    });
+    // The value of a variant is its discriminant, which isn't necessarily its position
+    let descriptions = variants.iter().map(|v| v.to_string());
 
     // Build the output, possibly using quasi-quotation
     let expanded = quote! {
@@ -53,16 +47,19 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
     }
     impl #crate_ident::PIntegerConvertible for #ident {
         fn pinteger_range() -> (PInteger, PInteger) {
+            let values = [ #( #ident :: #variants as usize ),* ];
             (
-                PInteger(0),
-                PInteger(#len),
+                PInteger(values.iter().copied().min().unwrap()),
+                PInteger(values.iter().copied().max().unwrap()),
             )
         }
         fn pinteger_descriptions(v: PInteger) -> Option<&'static str> {
-                match v {
-                    #(#description_matches)*
-                    _ => None,
-                }
+                #(
+                    if v.0 == #ident :: #variants as usize {
+                        return Some(#descriptions);
+                    }
+                )*
+                None
         }
     }
             };
-- 
2.43.0


From 2748d08b0ee2f96742eb7a90d8c7e9b22ec0ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 80/89] fix: integer parameters can declare their range

---
 knaster_macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index f8f0768..addfad0 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -650,8 +650,8 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
                     let from = p.from_pinteger_convertible.as_ref().unwrap();
                     quote! { #crate_ident::ParameterHint::from_pinteger_enum::<#from>() }
                 } else {
-                    let range = if let Some(range) = &p.range {
-                        quote! { #range }
+                    let range = if let Some(ExprRange { start, end, .. }) = &p.range {
+                        quote! { (#crate_ident::PInteger::from(#start), #crate_ident::PInteger::from(#end)) }
                     } else {
                         quote! { (#crate_ident::PInteger::MIN, #crate_ident::PInteger::MAX) }
                     };
-- 
2.43.0


From 6bee962b7685c201e6b4a84b0dbb91d6d25fcd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 81/89] fix: a signal can't be linked to an integer or boolean
 parameter

---
 knaster_graph/src/graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index d5a7ef0..2e9efa2 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -31,7 +31,7 @@ use std::prelude::v1::*;
 use crate::inspection::{EdgeInspection, EdgeSource, GraphInspection, NodeInspection};
 use crate::wrappers_graph::done::WrDone;
 use knaster_core::{
-    AudioCtx, Done, Float, Param, ParameterError, ParameterValue, Size, UGen, log::ArLogSender,
+    AudioCtx, Done, Float, Param, ParameterError, ParameterType, ParameterValue, Size, UGen, log::ArLogSender,
     typenum::*,
 };
 use knaster_core_dsp::math::{Add, MathUGen};
@@ -687,6 +687,12 @@ impl<F: Float> Graph<F> {
                 }
             }
         };
+        // A signal is applied as a float in every frame
+        if let Some(hint) = (sink_node.data.parameter_hints_fn)(param_index as usize) {
+            if matches!(hint.ty(), ParameterType::Integer | ParameterType::Bool) {
+                return Err(ParameterError::WrongParameterType.into());
+            }
+        }
         let nodes = self.get_nodes();
         if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
-- 
2.43.0


From be6cf0115081be96125e39693ac53caa50ccad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 82/89] fix: a node that can't be moved to another thread can't
 be pushed to a graph

Graph and AudioProcessor are Send whatever nodes they contain. A node holding
e.g. an Rc could be pushed from safe code and then be run by the audio thread
while the control thread used a clone of the Rc, a data race. WrArParams made
any node it wrapped Send.
---
 knaster_core_dsp/src/wrappers_core/audio_rate.rs |  5 ++++-
 knaster_graph/src/connectable2.rs                |  8 ++++----
 knaster_graph/src/graph.rs                       | 16 +++++++++++++---
 knaster_graph/src/graph_edit.rs                  |  4 ++--
 knaster_primitives/src/float.rs                  |  4 ++++
 5 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 2998585..9d3fa50 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -15,7 +15,10 @@ pub struct WrArParams<T: UGen> {
     block_index: usize,
 }
 
-unsafe impl<T: UGen> Send for WrArParams<T> {}
+/// # Safety
+///
+/// The buffer pointers are set and read by the thread that renders only.
+unsafe impl<T: UGen + Send> Send for WrArParams<T> {}
 
 impl<T: UGen> WrArParams<T> {
     #[allow(missing_docs)]
diff --git a/knaster_graph/src/connectable2.rs b/knaster_graph/src/connectable2.rs
index 572c463..30cb519 100644
--- a/knaster_graph/src/connectable2.rs
+++ b/knaster_graph/src/connectable2.rs
@@ -50,7 +50,7 @@ pub trait Connection2GraphTrait<F: Float> {
     fn from_inputs<I: Size>(&mut self) -> Conn<'_, F, Connection2GraphInputs<I>>;
     fn connect_from<S: Source>(&mut self, source: S) -> Conn<'_, F, S>;
 
-    fn connect_from_new<S: UGen<Sample = F> + 'static>(
+    fn connect_from_new<S: UGen<Sample = F> + Send + 'static>(
         &mut self,
         ugen: S,
     ) -> Conn<'_, F, Handle<S>>;
@@ -66,7 +66,7 @@ impl<F: Float> Connection2GraphTrait<F> for Graph<F> {
             t: source,
         }
     }
-    fn connect_from_new<S: UGen<Sample = F> + 'static>(
+    fn connect_from_new<S: UGen<Sample = F> + Send + 'static>(
         &mut self,
         ugen: S,
     ) -> Conn<'_, F, Handle<S>> {
@@ -181,7 +181,7 @@ impl<'a, F: Float, T: Source> Conn<'a, F, T> {
     }
     /// Connect to a new node, returning both a `Conn` for the [`Handle`] to the new node. The
     /// [`Handle`] can be extracted with [`Conn::handle`].
-    pub fn to_new<S: UGen<Sample = F, Inputs = T::Outputs> + 'static>(
+    pub fn to_new<S: UGen<Sample = F, Inputs = T::Outputs> + Send + 'static>(
         self,
         sink: S,
     ) -> Conn<'a, F, Handle<S>> {
@@ -200,7 +200,7 @@ impl<'a, F: Float, T: Source> Conn<'a, F, T> {
             t: handle,
         }
     }
-    pub fn mul_new<S: UGen<Sample = F, Outputs = T::Outputs> + 'static>(
+    pub fn mul_new<S: UGen<Sample = F, Outputs = T::Outputs> + Send + 'static>(
         self,
         sink: S,
     ) -> Conn<'a, F, BinaryOpNodes<T::Outputs>>
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 2e9efa2..cf4362a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -368,10 +368,10 @@ impl<F: Float> Graph<F> {
 
     /// Push something implementing [`UGen`] to the graph.
     #[deprecated(note = "use `edit` instead")]
-    pub fn push<T: UGen<Sample = F> + 'static>(&mut self, ugen: T) -> Handle<T> {
+    pub fn push<T: UGen<Sample = F> + Send + 'static>(&mut self, ugen: T) -> Handle<T> {
         self.push_internal(ugen)
     }
-    pub(crate) fn push_internal<T: UGen<Sample = F> + 'static>(&mut self, ugen: T) -> Handle<T> {
+    pub(crate) fn push_internal<T: UGen<Sample = F> + Send + 'static>(&mut self, ugen: T) -> Handle<T> {
         let name = crate::core::any::type_name::<T>();
         let name = shorten_name(name);
         let node = Node::new(name, ugen);
@@ -390,7 +390,7 @@ impl<F: Float> Graph<F> {
     }
     /// Push something implementing [`UGen`] to the graph, adding the [`WrDone`] wrapper. This
     /// enables the node to free itself if it marks itself as done or for removal using [`GenFlags`].
-    pub(crate) fn push_with_done_action<T: UGen<Sample = F> + 'static>(
+    pub(crate) fn push_with_done_action<T: UGen<Sample = F> + Send + 'static>(
         &mut self,
         ugen: T,
         default_done_action: Done,
@@ -2432,6 +2432,11 @@ pub(crate) struct FeedbackSink<F: Float> {
     /// The buffer to write in the next block
     bufnum: usize,
 }
+// # Safety
+//
+// The sink and the source of a pair belong to the same Graph, so they are always run by the same
+// thread.
+unsafe impl<F: Float> Send for FeedbackSink<F> {}
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
     type Inputs = U1;
@@ -2486,6 +2491,11 @@ pub(crate) struct FeedbackSource<F: Float> {
     /// The buffer to read in the next block
     bufnum: usize,
 }
+// # Safety
+//
+// The sink and the source of a pair belong to the same Graph, so they are always run by the same
+// thread.
+unsafe impl<F: Float> Send for FeedbackSource<F> {}
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
     type Inputs = U0;
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8199edc..8e82d4d 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -85,7 +85,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
         }
     }
     /// Create a new node in the graph and return a handle to it.
-    pub fn push<'a, T: UGen<Sample = F> + 'static>(&'a self, ugen: T) -> SH<'a, 'b, F, Handle3<T>> {
+    pub fn push<'a, T: UGen<Sample = F> + Send + 'static>(&'a self, ugen: T) -> SH<'a, 'b, F, Handle3<T>> {
         let handle = self.graph.write().push_internal(ugen);
         let node_id = handle.node_id();
         SH {
@@ -99,7 +99,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 
     /// Push something implementing [`UGen`] to the graph, adding the [`WrDone`] wrapper. This
     /// enables the node to free itself if it marks itself as done or for removal using [`GenFlags`].
-    pub fn push_with_done_action<'a, T: UGen<Sample = F> + 'static>(
+    pub fn push_with_done_action<'a, T: UGen<Sample = F> + Send + 'static>(
         &'a self,
         ugen: T,
         default_done_action: Done,
diff --git a/knaster_primitives/src/float.rs b/knaster_primitives/src/float.rs
index 9703bb4..bd8f03c 100644
--- a/knaster_primitives/src/float.rs
+++ b/knaster_primitives/src/float.rs
@@ -10,6 +10,8 @@ use crate::core::{
 #[cfg(not(feature = "unstable"))]
 pub trait Float:
     num_traits::Float
+    + Send
+    + Sync
     + Default
     + Add
     + Sub
@@ -58,6 +60,8 @@ pub trait Float:
 #[cfg(feature = "unstable")]
 pub trait Float:
     num_traits::Float
+    + Send
+    + Sync
     + Default
     + Add
     + Sub
-- 
2.43.0


From dcbcaa08fe69fa719dc56637c02b2b62c4f3a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 83/89] fix: a node replacing the AudioCtx can't make other
 nodes read and write out of bounds

Every node has mutable access to the AudioCtx. With the block size taken from
there, safe code in one node decided how long the buffers of all nodes run
after it were said to be.
---
 knaster_core_dsp/src/wrappers_core/audio_rate.rs |  7 ++++++-
 knaster_graph/src/graph_gen.rs                   |  3 ++-
 knaster_graph/src/task.rs                        | 11 ++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9d3fa50..234c821 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -13,6 +13,8 @@ pub struct WrArParams<T: UGen> {
     buffers: NumericArray<Option<*const T::Sample>, T::Parameters>,
     // Keeps track of where we are in a block if processing sample-by-sample
     block_index: usize,
+    // The size of the block when a buffer was last set, which every buffer is at least as long as
+    buffer_len: usize,
 }
 
 /// # Safety
@@ -27,6 +29,7 @@ impl<T: UGen> WrArParams<T> {
             ugen,
             buffers: NumericArray::default(),
             block_index: 0,
+            buffer_len: 0,
         }
     }
 }
@@ -50,6 +53,7 @@ impl<T: UGen> UGen for WrArParams<T> {
     ) -> Frame<Self::Sample, Self::Outputs> {
         for (param, buffer) in self.buffers.iter().enumerate() {
             if let Some(ptr) = buffer {
+                assert!(self.block_index < self.buffer_len);
                 let value = unsafe { *ptr.add(self.block_index) }.to_f64() as PFloat;
                 self.ugen
                     .param_apply(ctx, param, ParameterValue::Float(value))
@@ -78,11 +82,12 @@ impl<T: UGen> UGen for WrArParams<T> {
 
     unsafe fn set_ar_param_buffer(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         index: usize,
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
+        self.buffer_len = ctx.block_size();
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index b3584cf..a147489 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -85,6 +85,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
+        assert_eq!(ctx.block_size(), self.block_size);
         if self.freed {
             for output_channel in output.iter_mut() {
                 output_channel.fill(F::ZERO);
@@ -210,7 +211,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         let mut new_flags = UGenFlags::default();
         // Run the tasks
         for task in tasks.iter_mut() {
-            task.run(ctx, &mut new_flags);
+            task.run(ctx, &mut new_flags, self.block_size);
         }
 
         // Set the output of the graph
diff --git a/knaster_graph/src/task.rs b/knaster_graph/src/task.rs
index e4644a4..064c6fc 100644
--- a/knaster_graph/src/task.rs
+++ b/knaster_graph/src/task.rs
@@ -22,11 +22,12 @@ pub struct Task<F: Float> {
     pub(crate) output_channels: usize,
 }
 impl<F: Float> Task<F> {
-    pub fn run(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
-        let input = unsafe { RawAggregateBlockRead::new(&self.in_buffers, ctx.block_size()) };
-        let mut output = unsafe {
-            RawContiguousBlock::new(self.out_buffer, self.output_channels, ctx.block_size())
-        };
+    /// `block_size` is that of the graph. The one in `ctx` can't be relied on here, since every
+    /// node has mutable access to the `ctx`.
+    pub fn run(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, block_size: usize) {
+        let input = unsafe { RawAggregateBlockRead::new(&self.in_buffers, block_size) };
+        let mut output =
+            unsafe { RawContiguousBlock::new(self.out_buffer, self.output_channels, block_size) };
         self.ugen.process_block(ctx, flags, &input, &mut output);
     }
 }
-- 
2.43.0


From cb58e77e3918f3be126be019ad5cc61676cb03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 84/89] fix: the output block of an AudioProcessor can't
 outlive its buffer

output_block returned a reference to a block stored in the processor, a raw
pointer without a lifetime. Safe code could exchange the blocks of two
processors, and both went on using the other one's buffer after it was freed.
---
 knaster_graph/src/audio_backend/jack.rs |  2 +-
 knaster_graph/src/block.rs              | 10 +++---
 knaster_graph/src/processor.rs          | 48 ++++++++++++++++---------
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/knaster_graph/src/audio_backend/jack.rs b/knaster_graph/src/audio_backend/jack.rs
index e2f0f93..19ff44a 100644
--- a/knaster_graph/src/audio_backend/jack.rs
+++ b/knaster_graph/src/audio_backend/jack.rs
@@ -144,7 +144,7 @@ impl<F: Float> jack::ProcessHandler for JackProcess<F> {
                     .run_raw_ptr_inputs(&self.input_block_pointers)
             }
 
-            let graph_output_buffers = self.audio_processor.output_block();
+            let mut graph_output_buffers = self.audio_processor.output_block();
             for (i, out_port) in self.out_ports.iter_mut().enumerate() {
                 let out_buffer = graph_output_buffers.channel_as_slice_mut(i);
                 for sample in out_buffer.iter_mut() {
diff --git a/knaster_graph/src/block.rs b/knaster_graph/src/block.rs
index 4460431..b7d9364 100644
--- a/knaster_graph/src/block.rs
+++ b/knaster_graph/src/block.rs
@@ -1,6 +1,6 @@
 //! Raw pointer based [`Block`] types that are used in knaster_graph
 
-use crate::core::slice;
+use crate::core::{marker::PhantomData, slice};
 
 use knaster_core::{Block, BlockRead, Float};
 
@@ -16,12 +16,13 @@ use knaster_core::{Block, BlockRead, Float};
 /// The caller guarantees that the `buffer` pointer points to an allocation
 /// at least the size of `channels * block_size` with no other mutable
 /// reference to it created for the lifetime of this `RawBlock`
-pub struct RawContiguousBlock<F> {
+pub struct RawContiguousBlock<'a, F> {
     buffer: *mut F,
     channels: usize,
     block_size: usize,
+    _allocation: PhantomData<&'a mut F>,
 }
-impl<F: Float> RawContiguousBlock<F> {
+impl<F: Float> RawContiguousBlock<'_, F> {
     /// Wrapper around a raw pointer to use it as a [`Block`]
     ///
     /// # Safety
@@ -34,10 +35,11 @@ impl<F: Float> RawContiguousBlock<F> {
             buffer,
             channels,
             block_size,
+            _allocation: PhantomData,
         }
     }
 }
-impl<F: Float> Block for RawContiguousBlock<F> {
+impl<F: Float> Block for RawContiguousBlock<'_, F> {
     type Sample = F;
 
     fn channel_as_slice(&self, channel: usize) -> &[Self::Sample] {
diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 3f9de1f..ac247fe 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -51,9 +51,8 @@ pub struct AudioProcessor<F: Float> {
     sample_rate: u32,
     block_size: usize,
     input_pointers: crate::core::vec::Vec<*const F>,
-    // The buffer referenced by `output_block`. OwnedRawBuffer will drop the allocation when dropped.
-    _output_buffer: OwnedRawBuffer<F>,
-    output_block: RawContiguousBlock<F>,
+    // OwnedRawBuffer will drop the allocation when dropped.
+    output_buffer: OwnedRawBuffer<F>,
     frame_clock: u64,
     // The frame clock available on other threads
     shared_frame_clock: SharedFrameClock,
@@ -98,14 +97,7 @@ impl<F: Float> AudioProcessor<F> {
         let audio_processor = AudioProcessor {
             graph_node: node,
             input_pointers,
-            output_block: unsafe {
-                RawContiguousBlock::new(
-                    output_buffer.add(0).expect("This is infallible"),
-                    Outputs::USIZE,
-                    block_size,
-                )
-            },
-            _output_buffer: output_buffer,
+            output_buffer,
             sample_rate,
             block_size,
             frame_clock: 0,
@@ -127,13 +119,21 @@ impl<F: Float> AudioProcessor<F> {
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
         let mut flags = UGenFlags::new();
+        // SAFETY: There is no other block referring to the buffer, see `output_block`
+        let mut output_block = unsafe {
+            RawContiguousBlock::new(
+                self.output_buffer.ptr.cast(),
+                self.outputs() as usize,
+                self.block_size,
+            )
+        };
         let ugen = self
             .graph_node
             .ugen()
             .expect("The top level graph should be guaranteed to be local to its node");
         // SAFETY: The input pointers were just created from shared references
         let input = unsafe { RawAggregateBlockRead::new(&self.input_pointers, self.block_size) };
-        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
+        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut output_block);
         self.frame_clock += self.block_size as u64;
         self.shared_frame_clock
             .store_new_time(Seconds::from_samples(
@@ -168,12 +168,20 @@ impl<F: Float> AudioProcessor<F> {
         assert!(input_pointers.len() == self.inputs() as usize);
         self.ctx.block.set_frame_clock(self.frame_clock);
         let mut flags = UGenFlags::new();
+        // SAFETY: There is no other block referring to the buffer, see `output_block`
+        let mut output_block = unsafe {
+            RawContiguousBlock::new(
+                self.output_buffer.ptr.cast(),
+                self.outputs() as usize,
+                self.block_size,
+            )
+        };
         let ugen = self
             .graph_node
             .ugen()
             .expect("The top level graph should be guaranteed to be local to its node");
         let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
-        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
+        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut output_block);
         self.frame_clock += self.block_size as u64;
         self.shared_frame_clock
             .store_new_time(Seconds::from_samples(
@@ -181,10 +189,16 @@ impl<F: Float> AudioProcessor<F> {
                 self.sample_rate as u64,
             ));
     }
-    /// Get a mutable reference to the output block. This block holds the output of the last
-    /// processed block.
-    pub fn output_block(&mut self) -> &mut RawContiguousBlock<F> {
-        &mut self.output_block
+    /// Get the output block. This block holds the output of the last processed block.
+    pub fn output_block(&mut self) -> RawContiguousBlock<'_, F> {
+        // SAFETY: The block keeps self, the owner of the buffer, borrowed
+        unsafe {
+            RawContiguousBlock::new(
+                self.output_buffer.ptr.cast(),
+                self.outputs() as usize,
+                self.block_size,
+            )
+        }
     }
     /// Get the block size, i.e. how many frames are produced each time [`Self::run`] is called.
     pub fn block_size(&self) -> usize {
-- 
2.43.0


From 27c874f8466f53ee85832a722f0ad3c5af280386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 85/89] fix: the tables of an anti-aliased Wavetable had
 partials above 20 kHz, the highest ones no fundamental

---
 knaster_core_dsp/src/dsp/wavetable.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 7ad082d..13079cd 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -384,7 +384,8 @@ mod wavetable_vec {
         // The higher this freq, the lower the number of harmonics
         let max_freq_produced = table_index_to_max_freq_produced(index);
         let max_harmonic_freq = 20000.0;
-        (max_harmonic_freq / max_freq_produced) as usize
+        // Every table has the fundamental, whatever it is played at
+        ((max_harmonic_freq / max_freq_produced) as usize).max(1)
     }
 
     /// Wavetable is a standardised wavetable with a buffer of samples, as well as a
@@ -532,7 +533,7 @@ mod wavetable_vec {
         pub fn fill_sine(&mut self, num_harmonics: usize, freq: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
                 table.fill_sine(
-                    num_harmonics.min((table_index_to_max_harmonic(i) as f64 * freq) as usize),
+                    num_harmonics.min((table_index_to_max_harmonic(i) as f64 / freq) as usize),
                     freq,
                 );
             }
@@ -540,14 +541,15 @@ mod wavetable_vec {
         /// Add a naive sawtooth wave to the wavetable.
         pub fn add_aliasing_saw(&mut self, num_harmonics: usize, amp: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
-                table.add_saw(0, num_harmonics.min(table_index_to_max_harmonic(i)), amp);
+                table.add_saw(0, num_harmonics.min(table_index_to_max_harmonic(i) - 1), amp);
             }
         }
         /// Add a sawtooth wave starting from a specific harmonic
         pub fn add_saw(&mut self, start_harmonic: usize, end_harmonic: usize, amp: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
-                let end_harmonic = end_harmonic.min(table_index_to_max_harmonic(i));
-                if end_harmonic > start_harmonic {
+                // Harmonics count from 0, the fundamental
+                let end_harmonic = end_harmonic.min(table_index_to_max_harmonic(i) - 1);
+                if end_harmonic >= start_harmonic {
                     table.add_saw(start_harmonic, end_harmonic, amp);
                 }
             }
@@ -558,7 +560,8 @@ mod wavetable_vec {
         pub fn add_odd_harmonics(&mut self, num_harmonics: usize, amp_falloff: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
                 table.add_odd_harmonics(
-                    num_harmonics.min(table_index_to_max_harmonic(i)),
+                    // Odd harmonics are two apart
+                    num_harmonics.min(table_index_to_max_harmonic(i).div_ceil(2)),
                     amp_falloff,
                 );
             }
-- 
2.43.0


From 46ae9e99dd00cf7c9d25a2dcfde021a740527a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 86/89] fix: normalizing a silent Wavetable made it NaN

---
 knaster_core_dsp/src/dsp/wavetable.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 13079cd..c22661a 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -589,6 +589,9 @@ mod wavetable_vec {
                     loudest_sample = sample.abs();
                 }
             }
+            if loudest_sample == F::ZERO {
+                return;
+            }
             // Scale all tables by the same amount
             let scaler = F::ONE / loudest_sample;
             for table in self.partial_tables.iter_mut() {
-- 
2.43.0


From 076faa074cc49d9511877b900ebba6ffe5aeacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 87/89] fix: selecting an output channel that does not exist
 panicked instead of being reported

---
 knaster_graph/src/graph_edit.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8e82d4d..201fd8b 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -277,6 +277,17 @@ pub struct DH<'a, 'b, F: Float, T> {
     // graph: &'a RwLock<&'b mut Graph<F>>,
     graph: &'a GraphRef<'b, F>,
 }
+/// The output at the given position in `outputs`. If there is no such output this is reported in the
+/// log, and a channel which no graph has is returned so that connections from it are refused.
+fn selected_output(
+    mut outputs: impl Iterator<Item = (NodeOrGraph, u16)>,
+    index: u16,
+) -> (NodeOrGraph, u16) {
+    outputs.nth(index as usize).unwrap_or_else(|| {
+        log::error!("There is no output channel {index} to select.");
+        (NodeOrGraph::Graph, u16::MAX)
+    })
+}
 impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     /// Create a new handle to certain outputs from this handle.
     pub fn out<N: Size + Copy>(
@@ -285,7 +296,7 @@ impl<'a, 'b, F: Float, S0: Static> SH<'a, 'b, F, S0> {
     ) -> SH<'a, 'b, F, ChannelsHandle<N>> {
         let mut channels = NumericArray::default();
         for (i, c) in source_channels.into().into_iter().enumerate() {
-            channels[i] = self.nodes.iter_outputs().nth(c as usize).unwrap();
+            channels[i] = selected_output(self.nodes.iter_outputs(), c);
         }
         SH {
             nodes: ChannelsHandle { channels },
@@ -482,7 +493,7 @@ impl<'a, 'b, F: Float, D: Dynamic> DH<'a, 'b, F, D> {
     ) -> DH<'a, 'b, F, DynamicChannelsHandle> {
         let mut channels = SmallVec::with_capacity(N::USIZE);
         for c in source_channels.into() {
-            channels.push(self.nodes.iter_outputs().nth(c as usize).unwrap());
+            channels.push(selected_output(self.nodes.iter_outputs(), c));
         }
         DH {
             nodes: DynamicChannelsHandle {
-- 
2.43.0


From 1de85858372db388e803f94cb5990e2011c7a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 88/89] fix: making a dynamic handle of a node freed in the
 same edit panicked

---
 knaster_graph/src/graph_edit.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 201fd8b..e4089de 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -947,11 +947,17 @@ impl<U: UGen> Static for Handle3<U> {
             .expect("all the channels should be initialised")
     }
 
-    fn dynamic<F: Float>(&self, graph: &GraphRef<F>) -> Self::DynamicType {
-        let data = graph.read().node_data(self.node_id).unwrap();
+    fn dynamic<F: Float>(&self, _graph: &GraphRef<F>) -> Self::DynamicType {
         DynamicHandle3 {
             node_id: self.node_id,
-            data,
+            // From the type, because the node may already have been freed
+            data: NodeData {
+                parameter_descriptions_fn: |i| U::param_descriptions().get(i).copied(),
+                parameter_hints_fn: |i| U::param_hints().get(i).copied(),
+                inputs: U::Inputs::U16,
+                outputs: U::Outputs::U16,
+                parameters: U::Parameters::U16,
+            },
         }
     }
 }
-- 
2.43.0


From c46cab24bf409cdf451a99dda1c3e5a83187b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:20 +0000
Subject: [PATCH 89/89] fix: long envelopes took the wrong time in single
 precision

A step of an attack or release of many seconds is so small that adding it to a
single precision number near 1 rounds it up or down by a large part: an attack of
30 s took 29.6, one of 100 s took 108, and one of 20 minutes never ended. Keep the
position and its steps in double precision, like Envelope does.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 110 ++++++++++++------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 1fef4ff..496c4d7 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -18,13 +18,14 @@ enum AsrState {
 #[derive(Debug, Clone)]
 pub struct EnvAsr<F: Copy> {
     state: AsrState,
-    t: F,
+    /// Time within the state. Single precision can't add up the small steps of long envelopes.
+    t: f64,
     attack_seconds: F,
-    attack_rate: F,
+    attack_rate: f64,
     release_seconds: F,
-    release_rate: F,
+    release_rate: f64,
     /// On early release, we need to scale the release value by the value we were on because the curves are different
-    release_scale: F,
+    release_scale: f64,
 }
 
 #[impl_ugen]
@@ -33,12 +34,12 @@ impl<F: Float> EnvAsr<F> {
     pub fn new(attack_time: F, release_time: F) -> Self {
         Self {
             state: AsrState::Stopped,
-            t: F::ZERO,
+            t: 0.0,
             attack_seconds: attack_time,
-            attack_rate: F::ONE,
-            release_rate: F::ONE,
+            attack_rate: 1.0,
+            release_rate: 1.0,
             release_seconds: release_time,
-            release_scale: F::ONE,
+            release_scale: 1.0,
         }
     }
     /// Start the envelope from the current value
@@ -59,23 +60,23 @@ impl<F: Float> EnvAsr<F> {
             }
             AsrState::Attacking => {
                 // *out = self.t.powi(2);
-                out = self.t;
+                out = F::new(self.t);
                 self.t += self.attack_rate;
 
-                if self.t >= F::ONE {
+                if self.t >= 1.0 {
                     self.state = AsrState::Sustaining;
-                    self.t = F::ONE;
+                    self.t = 1.0;
                 }
             }
             AsrState::Sustaining => {
                 out = F::ONE;
             }
             AsrState::Releasing => {
-                out = self.t.powi(3) * self.release_scale;
+                out = F::new(self.t.powi(3) * self.release_scale);
                 self.t -= self.release_rate;
-                if self.t <= F::ZERO {
+                if self.t <= 0.0 {
                     self.state = AsrState::Stopped;
-                    self.t = F::ZERO;
+                    self.t = 0.0;
                     flags.mark_done(sample_in_block);
                 }
             }
@@ -90,10 +91,9 @@ impl<F: Float> EnvAsr<F> {
         if self.attack_seconds != atk {
             self.attack_seconds = atk;
             if atk == F::ZERO {
-                self.attack_rate = F::ONE;
+                self.attack_rate = 1.0;
             } else {
-                self.attack_rate =
-                    F::ONE / (self.attack_seconds * F::from(ctx.sample_rate()).unwrap());
+                self.attack_rate = 1.0 / (self.attack_seconds.to_f64() * ctx.sample_rate() as f64);
             }
         }
     }
@@ -104,10 +104,10 @@ impl<F: Float> EnvAsr<F> {
         if self.release_seconds != rel {
             self.release_seconds = rel;
             if rel == F::ZERO {
-                self.release_rate = F::ONE;
+                self.release_rate = 1.0;
             } else {
                 self.release_rate =
-                    F::ONE / (self.release_seconds * F::from(ctx.sample_rate()).unwrap());
+                    1.0 / (self.release_seconds.to_f64() * ctx.sample_rate() as f64);
             }
         }
     }
@@ -117,14 +117,14 @@ impl<F: Float> EnvAsr<F> {
         match self.state {
             AsrState::Stopped => {}
             AsrState::Attacking => {
-                self.release_scale = F::new(self.t);
+                self.release_scale = self.t;
                 self.state = AsrState::Releasing;
-                self.t = F::ONE;
+                self.t = 1.0;
             }
             AsrState::Sustaining => {
-                self.release_scale = F::ONE;
+                self.release_scale = 1.0;
                 self.state = AsrState::Releasing;
-                self.t = F::ONE;
+                self.t = 1.0;
             }
             AsrState::Releasing => {}
         }
@@ -137,18 +137,18 @@ impl<F: Float> EnvAsr<F> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         // Init rate based on the seconds if the rate hasn't already been set through a param
-        if self.attack_rate == F::ONE {
+        if self.attack_rate == 1.0 {
             if self.attack_seconds == F::ZERO {
-                self.attack_rate = F::ONE;
+                self.attack_rate = 1.0;
             } else {
-                self.attack_rate = F::ONE / (self.attack_seconds * F::from(sample_rate).unwrap());
+                self.attack_rate = 1.0 / (self.attack_seconds.to_f64() * sample_rate as f64);
             }
         }
-        if self.release_rate == F::ONE {
+        if self.release_rate == 1.0 {
             if self.release_seconds == F::ZERO {
-                self.release_rate = F::ONE;
+                self.release_rate = 1.0;
             } else {
-                self.release_rate = F::ONE / (self.release_seconds * F::from(sample_rate).unwrap());
+                self.release_rate = 1.0 / (self.release_seconds.to_f64() * sample_rate as f64);
             }
         }
     }
@@ -176,13 +176,14 @@ enum ArState {
 #[derive(Debug, Clone)]
 pub struct EnvAr<F: Copy> {
     state: ArState,
-    t: F,
+    /// Time within the state. Single precision can't add up the small steps of long envelopes.
+    t: f64,
     attack_seconds: F,
-    attack_rate: F,
+    attack_rate: f64,
     release_seconds: F,
-    release_rate: F,
+    release_rate: f64,
     /// On early release, we need to scale the release value by the value we were on because the curves are different
-    release_scale: F,
+    release_scale: f64,
 }
 #[impl_ugen]
 impl<F: Float> EnvAr<F> {
@@ -190,12 +191,12 @@ impl<F: Float> EnvAr<F> {
     pub fn new(attack_time: F, release_time: F) -> Self {
         Self {
             state: ArState::Stopped,
-            t: F::ZERO,
+            t: 0.0,
             attack_seconds: attack_time,
-            attack_rate: F::ONE,
-            release_rate: F::ONE,
+            attack_rate: 1.0,
+            release_rate: 1.0,
             release_seconds: release_time,
-            release_scale: F::ONE,
+            release_scale: 1.0,
         }
     }
     /// (Re)start the envelope from the current value
@@ -216,21 +217,21 @@ impl<F: Float> EnvAr<F> {
             }
             ArState::Attacking => {
                 // *out = self.t.powi(2);
-                out = self.t;
+                out = F::new(self.t);
                 self.t += self.attack_rate;
 
-                if self.t >= F::ONE {
-                    self.release_scale = F::ONE;
+                if self.t >= 1.0 {
+                    self.release_scale = 1.0;
                     self.state = ArState::Releasing;
-                    self.t = F::ONE;
+                    self.t = 1.0;
                 }
             }
             ArState::Releasing => {
-                out = self.t.powi(3) * self.release_scale;
+                out = F::new(self.t.powi(3) * self.release_scale);
                 self.t -= self.release_rate;
-                if self.t <= F::ZERO {
+                if self.t <= 0.0 {
                     self.state = ArState::Stopped;
-                    self.t = F::ZERO;
+                    self.t = 0.0;
                     flags.mark_done(sample_in_block);
                 }
             }
@@ -244,10 +245,9 @@ impl<F: Float> EnvAr<F> {
         if self.attack_seconds != atk {
             self.attack_seconds = atk;
             if atk == F::ZERO {
-                self.attack_rate = F::ONE;
+                self.attack_rate = 1.0;
             } else {
-                self.attack_rate =
-                    F::ONE / (self.attack_seconds * F::from(ctx.sample_rate()).unwrap());
+                self.attack_rate = 1.0 / (self.attack_seconds.to_f64() * ctx.sample_rate() as f64);
             }
         }
     }
@@ -258,10 +258,10 @@ impl<F: Float> EnvAr<F> {
         if self.release_seconds != rel {
             self.release_seconds = rel;
             if rel == F::ZERO {
-                self.release_rate = F::ONE;
+                self.release_rate = 1.0;
             } else {
                 self.release_rate =
-                    F::ONE / (self.release_seconds * F::from(ctx.sample_rate()).unwrap());
+                    1.0 / (self.release_seconds.to_f64() * ctx.sample_rate() as f64);
             }
         }
     }
@@ -273,18 +273,18 @@ impl<F: Float> EnvAr<F> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         // Init rate based on the seconds if the rate hasn't already been set through a param
-        if self.attack_rate == F::ONE {
+        if self.attack_rate == 1.0 {
             if self.attack_seconds == F::ZERO {
-                self.attack_rate = F::ONE;
+                self.attack_rate = 1.0;
             } else {
-                self.attack_rate = F::ONE / (self.attack_seconds * F::from(sample_rate).unwrap());
+                self.attack_rate = 1.0 / (self.attack_seconds.to_f64() * sample_rate as f64);
             }
         }
-        if self.release_rate == F::ONE {
+        if self.release_rate == 1.0 {
             if self.release_seconds == F::ZERO {
-                self.release_rate = F::ONE;
+                self.release_rate = 1.0;
             } else {
-                self.release_rate = F::ONE / (self.release_seconds * F::from(sample_rate).unwrap());
+                self.release_rate = 1.0 / (self.release_seconds.to_f64() * sample_rate as f64);
             }
         }
     }
-- 
2.43.0

