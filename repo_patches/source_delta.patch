From a05aac626db968153aa24676acbcd6c914b0a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 01/27] fix: compressed_graph load_edges keeps the requested
 vertices and may follow load_vertices

An empty edge range ignored vertex_count and terminated the partition array a second time
(graph_error from the constructors and after clear()); edges could not be loaded after
load_vertices() although documented so; a single loaded vertex value was not extended.
---
 include/graph/container/compressed_graph.hpp | 32 ++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..009c8ff 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -699,12 +699,19 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
-    // Nothing to do?
+    // Keep the vertices of a preceding load_vertices(); their row indexes are rebuilt below
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
+    // No edges: there are only the requested vertices
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0)
+        row_index_.resize(vertex_count + 1, vertex_type{0});
+      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+        row_values_base::resize(vertex_count);
       return;
     }
 
@@ -754,7 +761,7 @@ public: // Operations
     // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
     // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
     // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -763,12 +770,19 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+
+    // Keep the vertices of a preceding load_vertices(); their row indexes are rebuilt below
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
 
-    // Nothing to do?
+    // No edges: there are only the requested vertices
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
+      if (vertex_count > 0)
+        row_index_.resize(vertex_count + 1, vertex_type{0});
+      if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
+        row_values_base::resize(vertex_count);
       return;
     }
 
-- 
2.43.0


From 0759d36323d7228c27b0e18098975e8b2234a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 02/27] fix: compressed_graph load_vertices adds vertices
 without edges

Rows added after the edges were loaded got start index 0, so the last old vertex lost its edges
and the new ones had invalid ranges; an empty vertex range created a vertex.
---
 include/graph/container/compressed_graph.hpp | 21 +++++++-------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 009c8ff..ec4fda4 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -635,23 +635,16 @@ public: // Operations
   template <forward_range VRng, class VProj = identity>
   //requires views::copyable_vertex<invoke_result_t<VProj, range_value_t<VRng>>, VId, VV>
   constexpr void load_vertices(const VRng& vrng, VProj vprojection = {}, size_type vertex_count = 0) {
-    // Scan the vertex data to find the maximum vertex ID
-    vertex_id_type max_id = 0;
+    // Determine required vertex count: max(provided hint, existing size, largest id + 1)
+    vertex_count = max(vertex_count, size());
     for (auto&& vtx_data : vrng) {
-      auto&& vtx = vprojection(vtx_data);
-      max_id     = max(max_id, static_cast<vertex_id_type>(vtx.id));
+      auto&& vtx   = vprojection(vtx_data);
+      vertex_count = max(vertex_count, static_cast<size_type>(vtx.id) + 1);
     }
 
-    // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
-
-    // If graph structure doesn't exist yet, create it based on vertex count
-    if (row_index_.empty() && vertex_count > 0) {
-      row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
-    } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
-    }
+    // Create or expand the graph structure if needed. New vertices have no edges.
+    if (vertex_count > size())
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
   }
-- 
2.43.0


From 654ea841e303b672edf003105c4e526d3b4ed16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:03 +0000
Subject: [PATCH 03/27] fix: compressed_graph's last partition ends at the last
 vertex

The terminating partition id was row_index_.size(), one past the vertex count, so iterating the
last of several partitions yielded a vertex that does not exist.
---
 include/graph/container/compressed_graph.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index ec4fda4..4b98df5 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -918,13 +918,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
-        throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
+        throw graph_error(
+              std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(), size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From 5e175eec76c13bb0f5f12d28304b1c388f16e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 04/27] fix: kruskal finds the maximum vertex id independently
 of the sort

It was collected inside the sort comparator, which is not called for a single edge: kruskal then
indexed its disjoint sets out of bounds and inplace_kruskal returned an empty tree.
---
 include/graph/algorithm/mst.hpp | 46 ++++++++++++---------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..0361e1b 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,18 +565,14 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
-    }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
-    }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  // Find the maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e_copy) {
+    N = (std::max)({N, get<0>(ed), get<1>(ed)});
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
@@ -708,26 +704,16 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
-    }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
-    }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
+  // Find the maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e) {
+    N = (std::max)({N, static_cast<VId>(ed.source_id), static_cast<VId>(ed.target_id)});
   }
 
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
   for (VId uid = 0; uid <= N; ++uid) {
-- 
2.43.0


From c3513bfcd77959e99423700e836e34e7e97aade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 05/27] fix: prim extracts the best edge first and leaves tree
 vertices alone

The heap order was reversed and vertices already in the tree were still relaxed, so the result was
not a minimum spanning tree (0-1:5, 1-2:1 returned 2) and a negative edge overwrote the seed's
predecessor; the returned total included vertices the tree does not reach.
---
 include/graph/algorithm/mst.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 0361e1b..0ff5368 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -926,22 +926,35 @@ auto prim(G&&                   g,           // graph
 
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
-  // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // Priority queue comparator: compare by edge weight (second element of tuple). std::priority_queue
+  // extracts the greatest element, so the arguments are reversed to extract the best weight first.
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  std::vector<bool> in_tree(N, false); // Vertices already added to the tree
+  EV                total_weight = EV{};
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
 
+    // Skip outdated queue entries; otherwise the edge predecessor[uid]→uid becomes part of the tree
+    if (in_tree[static_cast<size_t>(uid)]) {
+      continue;
+    }
+    in_tree[static_cast<size_t>(uid)] = true;
+    if (uid != seed) {
+      total_weight += weight[uid];
+    }
+
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
-      // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      // Relaxation: if edge weight is better than current distance to a neighbor outside the tree
+      if (!in_tree[static_cast<size_t>(vid)] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -950,17 +963,6 @@ auto prim(G&&                   g,           // graph
     }
   }
 
-  // Calculate total MST weight by summing edge weights
-  // weight[v] contains the edge weight from predecessor[v] to v
-  // Exclude seed vertex (which has no incoming edge in MST)
-  EV total_weight = EV{};
-  for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
-      total_weight += weight[v];
-    }
-  }
-
   return total_weight;
 }
 } // namespace graph
-- 
2.43.0


From 3b4aab072a5f4fbe4bc7e5891acf861b23614025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 06/27] fix: bellman_ford doesn't relax edges out of unreached
 vertices

infinite + weight overflowed for integral distances, giving unreachable vertices finite distances
and reporting unreachable negative cycles.
---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..e5c2681 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -186,6 +186,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   using weight_type   = invoke_result_t<WF, const std::remove_reference_t<G>&, edge_t<G>>;
   using return_type   = optional<vertex_id_t<G>>;
 
+  constexpr auto zero     = shortest_path_zero<DistanceValue>();
+  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
+
   // relaxing the target is the function of reducing the distance from the source to the target
   auto relax_target = [&g, &predecessor, &distances, &compare, &combine] //
         (const edge_t<G>& e, const vertex_id_t<G>& uid, const weight_type& w_e) -> bool {
@@ -193,6 +196,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    if (d_u == infinite) { // u hasn't been reached: there's no path to extend (and infinite + w_e could overflow)
+      return false;
+    }
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -217,9 +223,6 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     }
   }
 
-  constexpr auto zero     = shortest_path_zero<DistanceValue>();
-  constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
-
   const id_type N = static_cast<id_type>(num_vertices(g));
 
   // Seed the queue with the initial vertice(s)
@@ -260,7 +263,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 5a532989e787d827776c978a2d994e433f523382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 07/27] fix: bellman_ford returns a vertex on the negative
 cycle

It returned the source of an edge that could still be relaxed, which may only be reachable from
the cycle; find_negative_cycle then never terminated.
---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index e5c2681..9862d82 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -264,13 +264,18 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
       if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
+        id_type cycle_id = uid;
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
+          // uid may be reachable from the cycle without being on it. Following N predecessors ends on the cycle.
+          for (id_type k = 0; k < N; ++k) {
+            cycle_id = static_cast<id_type>(predecessor[static_cast<size_t>(cycle_id)]);
+          }
         }
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
         }
-        return return_type(uid);
+        return return_type(cycle_id);
       } else {
         if constexpr (has_on_edge_minimized<G, Visitor>) {
           visitor.on_edge_minimized(g, uv);
-- 
2.43.0


From 11c04f1589562cac7c7b702820535cf95ba1c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 08/27] fix: kosaraju computes finish times with a depth-first
 search

Vertices were marked visited when pushed, so the first pass wasn't depth-first, its finish order
was wrong and different strongly connected components were merged or split.
---
 include/graph/algorithm/connected_components.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..81b8fc4 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -164,7 +163,11 @@ void kosaraju(G&&        g,        // graph
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // A vertex is visited when it's taken from the stack. Marking it when it's pushed wouldn't be
+        // a depth-first search: it could finish before a vertex that is reachable from it.
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +177,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +285,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -291,13 +292,13 @@ void kosaraju(G&&        g,        // bidirectional graph
 
       if (children_visited) {
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        visited[uid] = true; // visited when taken from the stack, not when pushed (see two-graph version)
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From fa43ad6a4481ba26d09d47351cd57563f18f9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 09/27] fix: afforest on an empty graph does nothing

It sampled from an empty component range.
---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 81b8fc4..3596f58 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -721,6 +721,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) { // nothing to do, and no vertex to sample
+    return;
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -828,6 +831,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) { // nothing to do, and no vertex to sample
+    return;
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 4cfd95b26637de2db965232387f43feed34ba32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 10/27] fix: biconnected_components reports a vertex that only
 has self-loops

Self-loops are ignored, so it is an isolated vertex and its own component; it was in none.
---
 include/graph/algorithm/biconnected_components.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..729206a 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -189,9 +189,15 @@ void biconnected_components(G&& g, OuterContainer& components) {
       continue;
     }
 
-    // Check for isolated vertex (no edges)
-    auto start_edges = edges(g, sv);
-    if (std::ranges::begin(start_edges) == std::ranges::end(start_edges)) {
+    // Check for isolated vertex (no edges other than self-loops, which are ignored)
+    bool isolated = true;
+    for (auto&& uv : edges(g, sv)) {
+      if (target_id(g, uv) != start) {
+        isolated = false;
+        break;
+      }
+    }
+    if (isolated) {
       // Isolated vertex — trivial biconnected component
       components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
       disc[start] = timer++; // mark as visited
-- 
2.43.0


From 07b95e493f0e7c05555a59ae6b939f2820b17976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 11/27] fix: undirected_adjacency_list copies edges whose
 source id is above the target id

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..9d9dfa0 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1103,15 +1103,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
+  // Copy edges - iterate through each vertex and copy the edges it's the source of, to avoid duplicates
   for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
     const auto& src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: when uid matches its source
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From 7f6bd7c074a4bec958cf376df5562753a4925170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 12/27] fix: undirected_adjacency_list erase_edge unlinks the
 edge, and graph-level edges() compiles

---
 .../detail/undirected_adjacency_list_impl.hpp         | 11 ++++++++---
 include/graph/container/undirected_adjacency_list.hpp | 10 +++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 9d9dfa0..3aac57d 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1435,9 +1435,14 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
-  edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  edge_type*          uv  = &*pos;
+  const edge_iterator end = edge_iterator(static_cast<graph_type&>(*this), this->vertices_.end());
+  do {
+    ++pos;
+  } while (pos != end && &*pos == uv); // the edge is in the lists of both of its vertices
+
+  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
   return pos;
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..9748556 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1055,10 +1055,14 @@ public:
   /// @brief Get range of all edges.
   /// @note Each undirected edge appears twice in iteration (once from each endpoint).
   /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end()), this->edges_size_};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, const_cast<base_undirected_adjacency_list&>(*this).begin()),
+            const_edge_iterator(g, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
   }
 
 public: // Vertex Creation
-- 
2.43.0


From 94a502f89577aa0dd946b896f9a659ab3a2fccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 13/27] fix: undirected_adjacency_list links a self-loop into
 its vertex's list once

---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 3aac57d..dd13d3a 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -387,9 +387,6 @@ void ual_vertex_edge_list<EV, VV, GV, VId, VContainer, Alloc>::unlink(
   if (size_ == 0) {
     assert(head_ == nullptr && tail_ == nullptr);
   }
-  // Note: For self-loops, size_ may be > 0 but the edge appears in the list twice
-  // (once as inward, once as outward), so assertions about head/tail equality
-  // don't hold during partial unlink. The invariant is restored after both unlinks.
 }
 
 template <typename EV,
@@ -588,7 +585,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +596,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +608,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is in its vertex's list once
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From 1729257280a1b1480f51181a592928dec77da1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 14/27] fix: moving an undirected_adjacency_list frees replaced
 edges and empties the source

---
 .../container/undirected_adjacency_list.hpp   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 9748556..86e6021 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -933,7 +933,13 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {
+    other.vertices_.clear();
+  }
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -942,7 +948,17 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // free the edges being replaced
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+      other.vertices_.clear();
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From dde95f29175d9d06a8d69e60bf9c8ce16145f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 15/27] fix: compressed_graph's edges and num_edges friends
 only take descriptors

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 4b98df5..91287c3 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1230,7 +1230,7 @@ public: // Friend functions
    * @note Returns empty view if vertex descriptor is out of bounds
   */
   template <typename G, typename VertexDesc>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && requires(VertexDesc d) { d.vertex_id(); }
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
           std::conditional_t<std::is_const_v<std::remove_reference_t<G>>, typename col_index_vector::const_iterator,
@@ -1314,7 +1314,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
   template <typename G, typename U>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && requires(const U& d) { d.vertex_id(); }
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
     if (vid >= g.size()) {
-- 
2.43.0


From c78fc12d63b0fbb7dc48bfd62bc0c55216826e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 16/27] fix: maximal_independent_set never contains a vertex
 with a self-loop

---
 include/graph/algorithm/mis.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..55d30fa 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -162,17 +162,18 @@ size_t maximal_independent_set(G&&                      g,       // graph
   // Mark seed vertex as removed
   removed_vertices[seed] = 1;
 
-  // Check if seed vertex has a self-loop
-  bool seed_has_self_loop = false;
-  for (auto uv : edges(g, seed)) {
-    if (target_id(g, uv) == seed) {
-      seed_has_self_loop = true;
-      break;
+  // A vertex with a self-loop is adjacent to itself
+  auto has_self_loop = [&g](const vertex_id_t<G>& uid) {
+    for (auto uv : edges(g, uid)) {
+      if (target_id(g, uv) == uid) {
+        return true;
+      }
     }
-  }
+    return false;
+  };
 
   // Only add seed to MIS if it has no self-loop
-  if (!seed_has_self_loop) {
+  if (!has_self_loop(seed)) {
     *mis++ = seed;
     ++count;
     // Mark neighbors as removed
@@ -183,7 +184,7 @@ size_t maximal_independent_set(G&&                      g,       // graph
 
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
-    if (!removed_vertices[uid]) {
+    if (!removed_vertices[uid] && !has_self_loop(uid)) {
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From a72181eedddb0c3d10d79a05cfd99872b93e0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:17 +0000
Subject: [PATCH 17/27] fix: compressed_graph's target_id and edge_value
 friends only take descriptors

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 91287c3..e8cc868 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1275,7 +1275,7 @@ public: // Friend functions
    * @note No bounds checking is performed; edge descriptor must be valid
   */
   template <typename G, typename EdgeDesc>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && requires(const EdgeDesc& d) { d.value(); }
   [[nodiscard]] friend constexpr auto target_id(G&& g, const EdgeDesc& uv) noexcept {
     // Edge descriptor's value() returns the edge index into col_index_
     auto edge_idx = uv.value();
@@ -1380,7 +1380,7 @@ public: // Friend functions
    * @note Only available when EV is not void
   */
   template <typename G, typename E>
-  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>) && requires(const E& d) { d.value(); }
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
       return g.edge_value(static_cast<vertex_id_type>(uv.value()));
-- 
2.43.0


From c344368bd328d2536dc1fe763f4dc16b4c3fca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 18/27] fix: compressed_graph's edge_value doesn't truncate
 edge ids to the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index e8cc868..0ebe8d5 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1383,9 +1383,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>) && requires(const E& d) { d.value(); }
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 34b57022e265dcf8b3cc568833af0c20b13e8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 19/27] fix: compressed_graph reports the number of vertices of
 each partition

---
 include/graph/container/compressed_graph.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 0ebe8d5..53bc043 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1159,6 +1159,21 @@ public: // Friend functions
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
 
+  /**
+   * @brief Get the number of vertices in a specific partition.
+   * 
+   * @param g The graph (const reference)
+   * @param pid The partition ID (0-based index)
+   * @return The number of vertices in the partition, 0 if pid is out of range
+   * @note Complexity: O(1)
+   * @note This is the ADL customization point for the num_vertices(g, pid) CPO
+  */
+  template <typename G, std::integral PId>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  [[nodiscard]] friend constexpr auto num_vertices(const G& g, const PId& pid) noexcept {
+    return static_cast<size_type>(vertices(g, pid).size());
+  }
+
   /**
    * @brief Find a vertex by its ID
    * 
-- 
2.43.0


From 89c36a4c89b86e96505e905a992bbeae13eeb659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 20/27] fix: compressed_graph's last partition includes
 vertices added by load_vertices

---
 include/graph/container/compressed_graph.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 53bc043..93d28c9 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1152,9 +1152,12 @@ public: // Friend functions
       return vertex_descriptor_view<vertex_iter_type>(static_cast<std::size_t>(0), static_cast<std::size_t>(0));
     }
 
-    // Return range [partition_[pid], partition_[pid+1])
+    // Return range [partition_[pid], partition_[pid+1]). The last partition extends to the end because
+    // load_vertices() may have added vertices since the partitions were defined.
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    const auto end_vid   = static_cast<std::size_t>(pid) + 1 == num_parts
+                                 ? static_cast<std::size_t>(g.size())
+                                 : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid) + 1]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From 28e6bf9baf347392b360413dc972dfb692f31e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 21/27] fix: compressed_graph loads vertex values from ranges
 that aren't sized

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 93d28c9..dd01682 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -187,7 +187,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
@@ -216,7 +216,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
-- 
2.43.0


From 3ffb05329ca7ed33dca38d318e28fdbb61a1c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 22/27] fix: source_id of an in-edge finds the source when
 vertices are in a map

---
 include/graph/detail/edge_cpo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..cf9d5ca 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -339,7 +339,7 @@ namespace _cpo_impls {
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From a9c902e40981dfe18a65f51f526eb94e54d23e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 23/27] fix: source of an in-edge is its source vertex, not the
 vertex that owns it

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..3b69c20 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3186,10 +3186,12 @@ namespace _cpo_impls {
     };
 
     // Check if edge descriptor has source() member
+    // (for in-edges it's the vertex that owns the edge, i.e. the target: the default finds their source)
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
-      { uv.source() };
-    };
+    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && !std::remove_cvref_t<E>::is_in_edge &&
+                              requires(const E& uv) {
+                                { uv.source() };
+                              };
 
     // Check if default implementation is available
     // Requires source_id(g, uv) and find_vertex(g, id) to work
-- 
2.43.0


From 20fdadf32fe610e93b79ae788392b41b454dad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 24/27] fix: the neighbour over an undirected graph's incoming
 edge is its other end

---
 include/graph/views/edge_accessor.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/graph/views/edge_accessor.hpp b/include/graph/views/edge_accessor.hpp
index 25e1524..21706be 100644
--- a/include/graph/views/edge_accessor.hpp
+++ b/include/graph/views/edge_accessor.hpp
@@ -116,17 +116,26 @@ struct in_edge_accessor {
   }
 
   /// Return the neighbor (source) vertex id from incoming edge @c e.
+  /// In an undirected graph the incoming edges of a vertex are its own edges, so its
+  /// source_id() is the vertex that owns @c e and the neighbor is its target_id().
   template <adj_list::bidirectional_adjacency_list G>
   [[nodiscard]] constexpr auto neighbor_id(G& g, adj_list::in_edge_t<G> e) const {
-    return adj_list::source_id(g, e);
+    using id_type   = adj_list::vertex_id_t<G>;
+    using edge_type = adj_list::in_edge_t<G>;
+    if constexpr (adj_list::is_edge_descriptor_v<edge_type>) {
+      if constexpr (edge_type::is_in_edge) {
+        if (adj_list::source_id(g, e) == adj_list::vertex_id(g, e.source())) {
+          return static_cast<id_type>(adj_list::target_id(g, e));
+        }
+      }
+    }
+    return static_cast<id_type>(adj_list::source_id(g, e));
   }
 
   /// Return the neighbor (source) vertex descriptor from incoming edge @c e.
-  /// Uses source_id + find_vertex because the source() CPO on in-edge
-  /// descriptors returns the owning vertex (target), not the actual source.
   template <adj_list::bidirectional_adjacency_list G>
   [[nodiscard]] constexpr auto neighbor(G& g, adj_list::in_edge_t<G> e) const {
-    return *adj_list::find_vertex(g, adj_list::source_id(g, e));
+    return *adj_list::find_vertex(g, neighbor_id(g, e));
   }
 };
 
-- 
2.43.0


From 089ece04e62f36afe4dc301f09393a5dd6b7ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 25/27] fix: edgelist_view::size() is the number of edges it
 yields

---
 include/graph/views/edgelist.hpp | 34 ++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..aa8d9c4 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -142,6 +142,32 @@ namespace edgelist_detail {
   /// When true, edgelist_view conditionally provides size().
   template <class G>
   concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+
+  /// @brief The edge containers keep one edge per target, so num_edges(g) may count insertions that were not kept.
+  template <class G>
+  concept _has_unique_edges = requires { typename std::remove_cv_t<G>::graph_traits::edges_type::key_type; };
+
+  /// @brief The incoming edges are the edges themselves (undirected), so each is yielded from both of its ends.
+  template <class G>
+  concept _has_shared_edges = requires {
+    requires std::same_as<typename adj_list::in_edge_t<G>::edge_iterator_type,
+                          typename adj_list::edge_t<G>::edge_iterator_type>;
+  };
+
+  /// @brief Number of edges that iterating edges(g,u) over all vertices u yields.
+  template <class G>
+  [[nodiscard]] constexpr auto count_edges(G& g) noexcept {
+    using count_type = decltype(adj_list::num_edges(g));
+    if constexpr (_has_unique_edges<G> || _has_shared_edges<G>) {
+      count_type count = 0;
+      for (auto u : adj_list::vertices(g)) {
+        count += static_cast<count_type>(adj_list::degree(g, u));
+      }
+      return count;
+    } else {
+      return adj_list::num_edges(g);
+    }
+  }
 } // namespace edgelist_detail
 
 // Forward declarations
@@ -287,7 +313,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::count_edges(*g_);
   }
 
 private:
@@ -429,7 +455,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::count_edges(*g_);
   }
 
 private:
@@ -603,7 +629,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::count_edges(*g_);
   }
 
 private:
@@ -739,7 +765,7 @@ public:
   [[nodiscard]] constexpr auto size() const noexcept
   requires edgelist_detail::has_const_time_num_edges<G>
   {
-    return adj_list::num_edges(*g_);
+    return edgelist_detail::count_edges(*g_);
   }
 
 private:
-- 
2.43.0


From 7243f48716d92627197cdbc8c753db5aaf6e56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 26/27] fix: edges_bfs skips every cancelled branch, not only
 the last one

---
 include/graph/views/bfs.hpp | 43 +++++++++++--------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..e08ecbf 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: don't explore the target of the last edge (the newest entry in the queue)
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +801,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: don't explore the target of the last edge (the newest entry in the queue)
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +979,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From 9f92506b1f65a3d5add6eae26e8ed32ff72557b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 27/27] fix: num_edges of a transposed vertex counts its
 reversed edges

---
 include/graph/views/transpose.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..277e464 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -205,12 +205,13 @@ public:
   }
 
   // ===========================================================================
-  // num_edges — forwarded
+  // num_edges — forwarded for the graph, swapped for a vertex
   // ===========================================================================
 
+  /// num_edges(transpose, v) → in_degree(underlying, v)
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0

