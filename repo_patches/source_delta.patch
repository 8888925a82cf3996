From 303cd2e57a159cf74df699d7e1e595d9c88b5e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:46 +0000
Subject: [PATCH 1/9] fix: keep wrapped radii in cumulative_time_int so regions
 can grow past 2^31

A region that has grown by 2^31 or more when it reaches a node (for example
two detection events 130 edges apart with every edge at the maximum
discretised weight) overflowed the int32 wrapped radius of that node, and the
flooder then never terminated.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 3a5a1e696878534d3cb251e9676ff7d612a8f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 2/9] fix: shift observable bits as 64-bit values in
 bit_vector_to_obs_mask

The promoted uint8_t was shifted as a 32-bit int, so observables with index 31
or above gave a wrong mask (and an undefined shift from index 32).
---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..65efd10 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From e287b3471ab122b651d68c4c5e5dba5d29f3bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 3/9] fix: reject out-of-range detection events before touching
 the decoder state

The detection events preceding the invalid one had already been created (and,
with negative weights, nodes had been marked), so every later shot on the same
decoder failed or gave a wrong answer.
---
 .../sparse_blossom/driver/mwpm_decoding.cc     | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 65efd10..98259ac 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -86,19 +86,31 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     mwpm.flooder.queue.cur_time = 0;
 
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
-        // Just add detection events if graph has no negative weights
+        // Check all the detection events before modifying any state, so that the decoder is still usable if we throw
         for (auto& detection : detection_events) {
             if (detection >= mwpm.flooder.graph.nodes.size())
                 throw std::invalid_argument(
                     "The detection event with index " + std::to_string(detection) +
                     " does not correspond to a node in the graph, which only has " +
                     std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+        }
+
+        // Just add detection events if graph has no negative weights
+        for (auto& detection : detection_events) {
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
         }
 
     } else {
+        // Check all the detection events before modifying any state, so that the decoder is still usable if we throw
+        for (auto& detection : detection_events) {
+            if (detection >= mwpm.flooder.graph.nodes.size())
+                throw std::invalid_argument(
+                    "Detection event index `" + std::to_string(detection) +
+                    "` is larger than any detector node index in the graph.");
+        }
+
         // First mark nodes with negative weight detection events
         for (auto& det : mwpm.flooder.negative_weight_detection_events) {
             mwpm.flooder.graph.nodes[det].radius_of_arrival = 1;
@@ -106,10 +118,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "Detection event index `" + std::to_string(detection) +
-                    "` is larger than any detector node index in the graph.");
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 549ddff5b23e7553457b29ba3fd0e3c3c7027b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 4/9] fix: check node indices before using them in
 get_nodes_on_shortest_path_from_source

is_boundary_node read nodes[...] out of bounds before the range check.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..4aba2fe 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -365,13 +365,13 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 }
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
-    auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    auto& mwpm = get_mwpm_with_search_graph();
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
-- 
2.43.0


From 9bbf025a859c765708c6eb2448466520b840ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:55 +0000
Subject: [PATCH 5/9] fix: handle a shortest-path search with no path, or from
 a node to itself

Both cases dereferenced the null collision edge. A missing path now throws
std::invalid_argument with the search state reset, and the path from a node to
itself is empty.
---
 .../sparse_blossom/search/search_flooder.h         | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..70cff75 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -15,6 +15,8 @@
 #ifndef PYMATCHING2_SEARCH_FLOODER_H
 #define PYMATCHING2_SEARCH_FLOODER_H
 
+#include <stdexcept>
+
 #include "pymatching/sparse_blossom/search/search_graph.h"
 #include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
 
@@ -83,8 +85,14 @@ void SearchFlooder::iter_edges_tracing_back_from_collision_edge(
 
 template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_middle(size_t src, size_t dst, Callable handle_edge) {
+    if (src == dst)
+        return;  // The path from a node to itself has no edges
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(&graph.nodes[src], loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path exists between the source and the target of the search.");
+    }
     iter_edges_tracing_back_from_collision_edge(collision_edge, handle_edge);
     reset();
 }
@@ -102,9 +110,15 @@ void SearchFlooder::reverse_path_and_handle_edges(const std::vector<SearchGraphE
 
 template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t dst, Callable handle_edge) {
+    if (src == dst)
+        return;  // The path from a node to itself has no edges
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path exists between the source and the target of the search.");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From 7dba4dbb735883fb81e80629789b032ea2a96052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:55 +0000
Subject: [PATCH 6/9] fix: count the observables of an edge that replaces a
 parallel edge

Merging with REPLACE or SMALLEST_WEIGHT adopted the new observables without
growing the number of observables, so they were missing from predictions, and
add_noise wrote past the end of an observable array of that size.
---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 4aba2fe..a414fe5 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 0961d77fdd6e8a6a3de6f0bc07711030964aed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:09 +0000
Subject: [PATCH 7/9] fix: count_mistakes compares against nothing when no
 observables are given

--obs_in defaults to stdin, never to nullptr, so the check that observables were given somewhere never fired
and every shot was compared with all-zero observables.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..a59cd09 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 07c55ebe4f4455763ec9ce0aa9047362b73e4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 8/9] fix: count_mistakes compares all observables of models
 with more than 64

---
 .../sparse_blossom/driver/namespaced_main.cc          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index a59cd09..ed0ab3c 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -142,6 +142,7 @@ int main_count_mistakes(int argc, const char **argv) {
 
     stim::SparseShot sparse_shot;
     stim::SparseShot obs_shot;
+    pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     size_t num_mistakes = 0;
     size_t num_shots = 0;
     auto start = std::chrono::steady_clock::now();
@@ -153,12 +154,18 @@ int main_count_mistakes(int argc, const char **argv) {
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
-        auto res = pm::decode_detection_events_for_up_to_64_observables(mwpm, sparse_shot.hits, enable_correlations);
-        if (obs_shot.obs_mask_as_u64() != res.obs_mask) {
+        pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
+        bool mistake = false;
+        for (size_t k = 0; k < num_obs; k++) {
+            if ((bool)obs_shot.obs_mask[k] != (bool)res.obs_crossed[k])
+                mistake = true;
+        }
+        if (mistake) {
             num_mistakes++;
         }
         sparse_shot.clear();
         obs_shot.clear();
+        res.reset();
         num_shots++;
     }
     fprintf(stats_out, "%zu / %zu\n", num_mistakes, num_shots);
-- 
2.43.0


From e6342ec10d20ab04facc3f0b71956ac9aaca21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 9/9] fix: correlations of edges to boundary nodes and of
 self-loops made every decoding fail

---
 src/pymatching/sparse_blossom/driver/user_graph.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..7bb8bc1 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -149,12 +149,21 @@ inline double UserGraph::iter_discretized_edges(
         w *= 2;
         bool node1_boundary = is_boundary_node(e.node1);
         bool node2_boundary = is_boundary_node(e.node2);
+        // Boundary nodes are not part of the discretized graph: a rule for an edge incident to one applies to the
+        // boundary edge it becomes. Edges between boundary nodes, and self-loops, are not part of it at all.
+        std::vector<ImpliedWeightUnconverted> implied_weights;
+        for (const auto& implied : e.implied_weights_for_other_edges) {
+            size_t u = is_boundary_node(implied.node1) ? SIZE_MAX : implied.node1;
+            size_t v = is_boundary_node(implied.node2) ? SIZE_MAX : implied.node2;
+            if (u != v)
+                implied_weights.push_back({std::min(u, v), std::max(u, v), implied.implied_weight});
+        }
         if (node2_boundary && !node1_boundary) {
-            boundary_edge_func(e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node1, w, e.observable_indices, implied_weights);
         } else if (node1_boundary && !node2_boundary) {
-            boundary_edge_func(e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node2, w, e.observable_indices, implied_weights);
         } else if (!node1_boundary) {
-            edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            edge_func(e.node1, e.node2, w, e.observable_indices, implied_weights);
         }
     }
     return normalising_constant * 2;
-- 
2.43.0

