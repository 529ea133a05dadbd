From 376a949b683c8c8cfaffd07dbde31061c6a231a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/45] fix: graphs built from an edge list expose exactly
 num_vertices() rows

The edge-list constructors of index_adjacency/index_biadjacency declared one
row more than the filled structure has, so begin()..end() visited a row past
the index array.  Size the row count (and afforest's labels and CCVerifier's
bookkeeping, which compensated for it) by the number of vertices.
---
 include/nwgraph/adjacency.hpp                       | 8 ++++----
 include/nwgraph/algorithms/connected_components.hpp | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..6abc595 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,8 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
+  if (comp.empty()) return comp;
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
-- 
2.43.0


From c17dc473e690b6a59bcae24b1a19f5e344b7a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 02/45] fix: sorting neighbor lists keeps edge properties with
 their neighbor

sort_to_be_indexed() sorted only the neighbor-id column, so the property
columns no longer belonged to the neighbors they were stored with.
---
 include/nwgraph/containers/compressed.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..3b66424 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -416,10 +416,20 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    if constexpr (sizeof...(Attributes) == 1) {
+      auto s = std::get<0>(to_be_indexed_).begin();
 
-    for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
+        std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      }
+    } else {
+      // move the properties together with the neighbor they belong to
+      auto s = to_be_indexed_.begin();
+
+      for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
+        std::sort(ex_policy, s + indices_[i], s + indices_[i + 1],
+                  [](auto&& a, auto&& b) { return std::get<0>(a) < std::get<0>(b); });
+      }
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 21e9eee0732766658124b2a61e0e8bc33726e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 03/45] fix: rows of a compressed graph end where its row array
 ends

end() used the row count the structure was declared with, not the one it was
filled with, so filling a default-constructed or differently sized structure
left begin()..end() inconsistent with size().
---
 include/nwgraph/containers/compressed.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 3b66424..d8547d7 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -207,9 +207,9 @@ public:    // fixme
   iterator       begin()        { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator begin()  const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator cbegin() const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
-  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
+  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
 
   /// Random access to the outer range.
   sub_view       operator[](index_t i) { return begin()[i]; }
-- 
2.43.0


From 2c61ea290a776b34645c93bf41f182d03e66834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 04/45] fix: index_adjacency(N, el) has N rows when the edge
 list mentions fewer vertices

---
 include/nwgraph/adjacency.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..daf9953 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -114,6 +114,8 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    // vertices past those mentioned in the edge list have no neighbors
+    if (base::indices_.size() < N + 1) base::indices_.resize(N + 1, base::indices_.back());
   }
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   index_adjacency(size_t N,
@@ -124,6 +126,8 @@ public:
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    // vertices past those mentioned in the edge list have no neighbors
+    if (base::indices_.size() < N + 1) base::indices_.resize(N + 1, base::indices_.back());
   }
   // customized move constructor
   index_adjacency(std::vector<vertex_id>&& indices,
-- 
2.43.0


From ee5f264d9f2906ce118d18c0d86f2ad094831158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 05/45] fix: push_back onto the first row past the end of a
 compressed graph adds the row

The growth test was off by one: the entry count is one more than the row
count, so a row appended right behind the last one was counted in the
sentinel slot and lost when the graph was closed.
---
 include/nwgraph/containers/compressed.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index d8547d7..bcde592 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -273,11 +273,10 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
-        indices_.emplace_back(0);
-        ++N_;
-      }
+    // N_ rows take N_ + 1 entries
+    if (i + 1 >= indices_.size()) {
+      indices_.resize(i + 2);
+      N_ = i + 1;
     }
     ++indices_[i];
     to_be_indexed_.push_back(attrs...);
-- 
2.43.0


From 72ca9fd49568f1999cd41f25c1e2fa2f78c477f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 06/45] fix: comparing columns of different length is false,
 not an out-of-bounds read

---
 include/nwgraph/containers/soa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..b27f8f4 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -334,7 +334,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   bool operator==(struct_of_arrays& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From e2a4c77fff47193aec38e3bdb3e35037c7a0a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 07/45] fix: one-sided bipartite builders size the graph by the
 side it is indexed by

---
 include/nwgraph/build.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b9125f2..b96c278 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -784,7 +784,7 @@ auto make_plain_bipartite_graph(const V1& left_vertices, const V2& right_vertice
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
@@ -812,7 +812,7 @@ auto make_bipartite_graph(const V& left_vertices, const V& right_vertices, const
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
-- 
2.43.0


From 9f75ec7b8924b2c53485a8b070d7c8d28617c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 08/45] fix: index_adj_flist can be constructed from an edge
 list

The constructors called a function that does not exist.
---
 include/nwgraph/vofos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 8ad8b02..6f93d6b 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_flist(size_t N = 0) : base(N) {}
 
-  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
-  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
-- 
2.43.0


From b45e60046b8bb0db927f9e657f9fc7f75363414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:26 +0000
Subject: [PATCH 09/45] fix: permute_by_degree moves every row to the position
 it announces

---
 include/nwgraph/containers/compressed.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index bcde592..e5b2ebc 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -459,7 +459,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
@@ -500,8 +500,8 @@ public:    // fixme
     // before the computation, new_indices stores the degree of each vertex (with new id)
     std::inclusive_scan(ex_policy, new_indices.begin(), new_indices.end(), new_indices.begin());
     //7. Permute each neighborhood of each vertex in to_be_indexed_ to their new place
-    // based on the new_id_perm
-    to_be_indexed_.permute(indices_, new_indices, new_id_perm);
+    // perm[i] is the old id of the neighborhood that becomes the i-th one
+    to_be_indexed_.permute(indices_, new_indices, perm);
 
     //8. Overwrite the old indices_ with new_indices
     indices_ = std::move(new_indices);
-- 
2.43.0


From fa88706340608083f9911565ecd7f456c097bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 10/45] fix: bfs_edge_range over a seed without unvisited
 neighbors is empty

---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..c1b3d2e 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -146,7 +146,13 @@ public:
 
   public:
     bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      // the seed may have no unvisited neighbor at all
+      while (u_begin != u_end && the_range_.visited_[std::get<0>(*u_begin)] == true) {
+        ++u_begin;
+      }
+      if (u_begin == u_end) the_range_.Q_.pop();
+    }
 
     bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
         : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
-- 
2.43.0


From 30c60d4a6fd627510cde7aa7e7c9c60246906f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 11/45] fix: dfs_range.hpp compiles, DFS marks the vertex it
 enters; dag_range stops reading successors after the last edge

---
 include/nwgraph/adaptors/dag_range.hpp |  2 +-
 include/nwgraph/adaptors/dfs_range.hpp | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adaptors/dag_range.hpp b/include/nwgraph/adaptors/dag_range.hpp
index fdbc1c3..b921325 100644
--- a/include/nwgraph/adaptors/dag_range.hpp
+++ b/include/nwgraph/adaptors/dag_range.hpp
@@ -80,7 +80,7 @@ public:
           }
         }
       }
-      if (the_range_._successor_list[v_].size() > 0) {
+      if (!Q.empty()) {
         the_range_._ready_to_process = no;
         the_range_._pred_done_counter[*successor_iterator] += 1;
         if (the_range_._pred_done_counter[*successor_iterator] == the_range_._predecessor_list[*successor_iterator].size()) {
diff --git a/include/nwgraph/adaptors/dfs_range.hpp b/include/nwgraph/adaptors/dfs_range.hpp
index 66fd6b8..b49dde4 100644
--- a/include/nwgraph/adaptors/dfs_range.hpp
+++ b/include/nwgraph/adaptors/dfs_range.hpp
@@ -26,8 +26,9 @@ namespace graph {
 
 enum three_colors { black, white, grey };
 
-template <typename Graph, typename Stack = std::stack<vertex_id_type>>
+template <typename Graph, typename Stack = std::stack<vertex_id_t<Graph>>>
 class dfs_range {
+  using vertex_id_type = vertex_id_t<Graph>;
 
 public:
   dfs_range(Graph& graph, vertex_id_type seed = 0) : the_graph_(graph), colors_(graph.end() - graph.begin(), white) {
@@ -119,8 +120,9 @@ private:
   std::vector<three_colors> colors_;
 };
 
-template <typename Graph, typename Stack = std::stack<vertex_id_type>>
+template <typename Graph, typename Stack = std::stack<vertex_id_t<Graph>>>
 class dfs_edge_range {
+  using vertex_id_type = vertex_id_t<Graph>;
 
 public:
   dfs_edge_range(Graph& graph, vertex_id_type seed = 0) : the_graph_(graph), colors_(graph.end() - graph.begin(), white) {
@@ -142,7 +144,13 @@ public:
 
   public:
     dfs_edge_range_iterator(dfs_edge_range<Graph, Stack>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.top()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.top()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      // the seed may have no unvisited neighbor at all
+      while (u_begin != u_end && the_range_.colors_[std::get<0>(*u_begin)] != white) {
+        ++u_begin;
+      }
+      if (u_begin == u_end) the_range_.Q_.pop();
+    }
 
     dfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
@@ -154,6 +162,7 @@ public:
       v_      = std::get<0>(*u_begin);
       u_begin = G[v_].begin();
       u_end   = G[v_].end();
+      colors[v_] = grey;
 
       // ++u_begin;
       while (u_begin != u_end && colors[std::get<0>(*u_begin)] != white) {
-- 
2.43.0


From 5eda854310c49d53791320b21c35c8390bbbd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 12/45] fix: bfs_v2 starts from an initialised frontier bitmap

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..13be7fb 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -574,7 +574,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(n);
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From 2ff3c6e6e42fb023ab711b9f03c8e98cb11317dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 13/45] fix: delta-stepping relaxations that do not improve a
 distance are dropped (uninitialised flag)

---
 include/nwgraph/algorithms/delta_stepping.hpp              | 2 +-
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..f68034f 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From 1bc42358f6133c77e112f3695b49f5fcdbe1b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 14/45] fix: delta_stepping_m1 visits the vertices of its
 frontier

---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index f68034f..12d21cb 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From 09b5de32469aff842cc1c2640d8e28b357f2d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 15/45] fix: dijkstra starts from the largest Distance, not the
 largest vertex id

---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From 18d2ba0b5b45566c400c03f4ed4c843f3fb2cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 16/45] fix: betweenness centrality: no integer division of
 path counts, no division by a zero maximum, verifier compares in score type

---
 .../algorithms/betweenness_centrality.hpp     | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index d065758..15b40af 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -26,6 +26,7 @@
 #include "nwgraph/adaptors/vertex_range.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 #if defined(CL_SYCL_LANGUAGE_VERSION)
 #include <dpstd/algorithm>
@@ -109,16 +110,18 @@ bool BCVerifier(const Graph& g, std::vector<typename graph_traits<Graph>::vertex
   }
   if (normalize){
     score_t biggest_score = *std::max_element(scores.begin(), scores.end());
-    for (size_t i = 0; i < num_vertices(g); ++i) {
-      scores[i] = scores[i] / biggest_score;
+    if (biggest_score > 0) {
+      for (size_t i = 0; i < num_vertices(g); ++i) {
+        scores[i] = scores[i] / biggest_score;
+      }
     }
   }
 
   bool all_ok = true;
 
   for (size_t i = 0; i < scores.size(); ++i) {
-    accum_t delta = abs(scores_to_test[i] - scores[i]);
-    if (delta > 1e-6) {
+    score_t delta = std::abs(scores_to_test[i] - scores[i]);
+    if (!(delta <= 1e-6)) {
       std::cout << i << ": " << scores[i] << " != " << scores_to_test[i] << " " << scores[i] - scores_to_test[i] << std::endl;
       all_ok = false;
     }
@@ -190,8 +193,10 @@ std::vector<score_t> brandes_bc(const Graph& G, bool normalize = true) {
     }
   }
   if (normalize) {
-    score_t largest = *std::max_element(centrality.begin(), centrality.end());
-    std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+    score_t largest = n_vtx == 0 ? score_t(0) : *std::max_element(centrality.begin(), centrality.end());
+    if (largest > 0) {
+      std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+    }
   }
   return centrality;
 }
@@ -303,7 +308,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                 for (auto&& elt : graph[u]) {
                   auto&& v = target(graph, elt);
                   if (succ.get(&v - &edges)) {
-                    delta += path_counts[u] / path_counts[v] * (1.0f + deltas[v]);
+                    delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1 + deltas[v]);
                   }
                 }
                 nw::graph::fetch_add(bc[u], deltas[u] = delta);
@@ -319,8 +324,10 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
   }
 
   if (normalize) {
-    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), 0.0f, nw::graph::max{});
-    std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
+    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), score_t(0), nw::graph::max{});
+    if (max > 0) {
+      std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
+    }
   }
   return bc;
 }
-- 
2.43.0


From 99f2eb3ebaa84d28416a1e6da44fcbbee2e83489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 17/45] fix: compressed graphs serialize their vertex count at
 its own width, const adjacencies can be serialized

---
 include/nwgraph/containers/compressed.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index e5b2ebc..9574687 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -299,31 +299,34 @@ public:    // fixme
     }
   }
 
-  void serialize(std::ostream& outfile) {
+  void serialize(std::ostream& outfile) const {
+    size_t n       = N_;
     size_t el_size = sizeof(indices_[0]);
     size_t st_size = indices_.size();
 
     outfile.write(reinterpret_cast<const char*>(magic_), sizeof(magic_));
-    outfile.write(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    outfile.write(reinterpret_cast<char*>(&n), sizeof(size_t));
 
     outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    outfile.write(reinterpret_cast<const char*>(indices_.data()), st_size * el_size);
     to_be_indexed_.serialize(outfile);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
 
   void deserialize(std::istream& infile) {
     char   spell[sizeof(magic_) + 1];
+    size_t n       = 0;
     size_t el_size = -1;
     size_t st_size = -1;
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
-    infile.read(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    infile.read(reinterpret_cast<char*>(&n), sizeof(size_t));
+    N_ = n;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-- 
2.43.0


From 3ef1af0204f2d16a3971013adccb6e1deefff9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:15 +0000
Subject: [PATCH 18/45] fix: column iterators have a working postfix increment,
 containers of different length compare unequal, operator!= compiles

---
 include/nwgraph/containers/aos.hpp        | 4 ++--
 include/nwgraph/containers/compressed.hpp | 4 ++--
 include/nwgraph/containers/soa.hpp        | 6 +++---
 include/nwgraph/containers/zip.hpp        | 8 ++++----
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/nwgraph/containers/aos.hpp b/include/nwgraph/containers/aos.hpp
index 2c1dc92..f661109 100644
--- a/include/nwgraph/containers/aos.hpp
+++ b/include/nwgraph/containers/aos.hpp
@@ -78,8 +78,8 @@ public:
   void push_back(const std::tuple<Attributes&...>& attrs) { base::push_back(attrs); }
   void push_back(const Attributes&... attrs) { base::push_back({attrs...}); }
 
-  bool operator==(array_of_structs& a) { return std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
-  bool operator!=(const storage_type& a) { return !operator==(a); }
+  bool operator==(array_of_structs& a) { return base::size() == a.size() && std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
+  bool operator!=(array_of_structs& a) { return !operator==(a); }
 
   template <size_t... Is>
   void print_helper(std::ostream& output_stream, std::tuple<Attributes...> attrs, std::index_sequence<Is...>) {
diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 9574687..aa48d2b 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -135,7 +135,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator++(int) const {
+    my_outer_iterator operator++(int) {
       my_outer_iterator tmp(*this);
       ++i_;
       return tmp;
@@ -147,7 +147,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator--(int) const {
+    my_outer_iterator operator--(int) {
       my_outer_iterator tmp(*this);
       --i_;
       return tmp;
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index b27f8f4..c2f436f 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -98,10 +98,10 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
@@ -337,7 +337,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
-  bool operator!=(const storage_type& a) {
+  bool operator!=(struct_of_arrays& a) {
     return !operator==(a);
   }
 };
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0ff909e..eb8ca75 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -102,10 +102,10 @@ struct zipped : std::tuple<Ranges&...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
@@ -297,10 +297,10 @@ struct zipped : std::tuple<Ranges&...> {
   }
 
   bool operator==(zipped& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
-  bool operator!=(const storage_type& a) {
+  bool operator!=(zipped& a) {
     return !operator==(a);
   }
 };
-- 
2.43.0


From 1868bf76a5c9aa861c3032209d6728e5fef57e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 19/45] fix: vertex_range split divides the range, edge-less
 ranges of one vertex are not divisible

---
 include/nwgraph/adaptors/vertex_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..5b6f284 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -88,7 +88,7 @@ public:
   vertex_range(vertex_range&&)      = default;
 
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_), end_(rhs.begin_ += rhs.size() / 2) {}
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +97,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > 1; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From 83f0b86693df0baf59a6edca55aac0fb4c1db28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 20/45] fix: edge_range iterators compare their position within
 a row, postfix ++ and const graphs with attributes compile

---
 include/nwgraph/adaptors/edge_range.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 14492df..85161f4 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -66,11 +66,11 @@ public:
     using iterator_category = std::forward_iterator_tag;
     using value_type        = std::tuple<
       vertex_id_type, vertex_id_type,
-      typename std::tuple_element_t<Is, std::conditional_t<is_const, const attributes_t<Graph>, attributes_t<Graph>>> ...>;
+      typename std::tuple_element_t<Is, std::conditional_t<is_const || std::is_const_v<Graph>, const attributes_t<Graph>, attributes_t<Graph>>> ...>;
     using difference_type = std::ptrdiff_t;
     using reference       = std::tuple<
         vertex_id_type, vertex_id_type,
-      typename std::tuple_element_t<Is, std::conditional_t<is_const, const attributes_t<Graph>, attributes_t<Graph>>>&...>;
+      typename std::tuple_element_t<Is, std::conditional_t<is_const || std::is_const_v<Graph>, const attributes_t<Graph>, attributes_t<Graph>>>&...>;
     using pointer = arrow_proxy<reference>;
 
   private:
@@ -126,7 +126,7 @@ public:
     }
 
     friend bool operator==(const my_iterator& a, const my_iterator& b) {
-      return a.first_ == b.first_;
+      return a.first_ == b.first_ && (a.first_ == a.last_ || a.u_begin_ == b.u_begin_);
     }
 
     friend auto operator<=>(const my_iterator& a, const my_iterator& b) {
@@ -141,7 +141,7 @@ public:
       return *this;
     }
 
-    my_iterator operator++(int) const {
+    my_iterator operator++(int) {
       my_iterator it = *this;
       ++(*this);
       return it;
-- 
2.43.0


From 2eb3cd7fe5797291a1f084f6b88585eaf632ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 21/45] fix: AtomicBitVector move assignment does not leak the
 words it held

---
 include/nwgraph/util/AtomicBitVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index 86d1b29..91a6f09 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -69,8 +69,8 @@ public:
 
   /// The move assignment operator needs to be explicit.
   AtomicBitVector& operator=(AtomicBitVector&& rhs) {
-    bits_ = std::exchange(rhs.bits_, 0);
-    data_ = std::exchange(rhs.data_, nullptr);
+    std::swap(bits_, rhs.bits_);
+    std::swap(data_, rhs.data_);
     return *this;
   }
 
-- 
2.43.0


From d1a3000e82af28da0c3f5611e1aec4162825f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:40 +0000
Subject: [PATCH 22/45] fix: write_mm of an index-1 adjacency writes 1-based
 ids

---
 include/nwgraph/io/mmio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 430aba4..b69fcd3 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -426,7 +426,7 @@ void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
@@ -458,7 +458,7 @@ void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes..
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
-- 
2.43.0


From 95a102aeef4df134b69ab259b849061bc2b2ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:10 +0000
Subject: [PATCH 23/45] fix: write_mm writes floating point values with enough
 digits to read them back

---
 include/nwgraph/io/mmio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index b69fcd3..b6f8c8d 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -376,6 +376,7 @@ directedness get_mm_symmetry(const std::string& filename) {
 
 template <size_t w_idx, directedness sym, typename... Attributes>
 void aos_stream(std::ofstream& outputStream, edge_list<sym, Attributes...> A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   if constexpr (is_unipartite<edge_list<sym, Attributes...>>::value) {
@@ -419,6 +420,7 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
 
 template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   outputStream << num_vertices(A) << " " << num_vertices(A) << " "
@@ -451,6 +453,7 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
 
 template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   outputStream << num_vertices(A, 0) << " " << num_vertices(A, 1) << " "
-- 
2.43.0


From 833d5e590da0f25882855fe5029f2934ea3c95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:15 +0000
Subject: [PATCH 24/45] fix: MatrixMarketFile reads an unterminated last line,
 values of an entry come in file order

---
 include/nwgraph/io/MatrixMarketFile.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 73554d6..98177c6 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -130,6 +130,7 @@ public:
   template <typename... Vs>
   class iterator {
     const char* i_;
+    const char* e_;    // end of the file
 
     /// Read the next token in the stream as a U, and update the pointer.
     ///
@@ -149,17 +150,18 @@ public:
     }
 
   public:
-    iterator(const char* i) : i_(i) {}
+    iterator(const char* i, const char* e) : i_(i), e_(e) {}
 
     std::tuple<int, int, Vs...> operator*() const {
       const char* i = i_;
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
-      return std::tuple(u, v, get<Vs>(i)...);
+      return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};
     }
 
     iterator& operator++() {
-      ++(i_ = std::strchr(i_, '\n'));
+      auto n = static_cast<const char*>(std::memchr(i_, '\n', e_ - i_));
+      i_     = n ? n + 1 : e_;    // the last line need not be terminated
       return *this;
     }
 
@@ -168,12 +170,12 @@ public:
 
   template <typename... Vs>
   iterator<Vs...> begin() const {
-    return {base_ + i_};
+    return {base_ + i_, base_ + e_};
   }
 
   template <typename... Vs>
   iterator<Vs...> end() const {
-    return {base_ + e_};
+    return {base_ + e_, base_ + e_};
   }
 
   template <typename... Vs>
@@ -189,7 +191,7 @@ public:
       --approx;
     }
     ++approx;
-    return {base_ + approx};
+    return {base_ + approx, base_ + e_};
   }
 };
 
-- 
2.43.0


From 2a0c5e794bd5a9e893219a94322aaec8d4e3bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 25/45] fix: vov/adj_list/adj_flist honour their index, filling
 them leaves the edge list as it was

---
 include/nwgraph/build.hpp | 18 +++++++++++++-----
 include/nwgraph/vofos.hpp |  4 ++--
 include/nwgraph/volos.hpp |  4 ++--
 include/nwgraph/vovos.hpp |  4 ++--
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b96c278..2a16763 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -117,20 +117,28 @@ void push_back_fill(const EdgeList& edge_list, Adjacency& adj, bool directed, si
   }
 }
 
-template <edge_list_graph edge_list_t, adjacency_list_graph adj_list_t>
+template <int idx = 0, edge_list_graph edge_list_t, adjacency_list_graph adj_list_t>
 auto fill_adj_list(edge_list_t& el, adj_list_t& al) {
   size_t num_edges = 0;
 
   al.open_for_push_back();
 
+  // elt is a tuple of references: exchange the ends of a copy, not of the edge in el
+  auto exchanged = []<class... Ts>(const std::tuple<Ts...>& elt) {
+    std::tuple<std::remove_cvref_t<Ts>...> copy(elt);
+    std::swap(std::get<0>(copy), std::get<1>(copy));
+    return copy;
+  };
+
   std::for_each(el.begin(), el.end(), [&](auto elt) {
-    push_back_fill_helper(al, elt);
-    ++num_edges;
-    if constexpr (edge_list_t::edge_directedness == directedness::undirected) {
-      std::swap(std::get<0>(elt), std::get<1>(elt));
+    if constexpr (idx == 0 || edge_list_t::edge_directedness == directedness::undirected) {
       push_back_fill_helper(al, elt);
       ++num_edges;
     }
+    if constexpr (idx == 1 || edge_list_t::edge_directedness == directedness::undirected) {
+      push_back_fill_helper(al, exchanged(elt));
+      ++num_edges;
+    }
   });
 
   al.close_for_push_back();
diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 6f93d6b..b105662 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_flist(size_t N = 0) : base(N) {}
 
-  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
diff --git a/include/nwgraph/volos.hpp b/include/nwgraph/volos.hpp
index e68edb0..b2ac1c4 100644
--- a/include/nwgraph/volos.hpp
+++ b/include/nwgraph/volos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_list(size_t N = 0) : base(N) {}
 
-  index_adj_list(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_list(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_adj_list(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_list(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
diff --git a/include/nwgraph/vovos.hpp b/include/nwgraph/vovos.hpp
index 4f912e4..b9ef57e 100644
--- a/include/nwgraph/vovos.hpp
+++ b/include/nwgraph/vovos.hpp
@@ -74,9 +74,9 @@ public:
 
   index_vov(size_t N = 0) : base(N) {}
 
-  index_vov(edge_list<directedness::directed, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list(A, *this); }
+  index_vov(edge_list<directedness::directed, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_vov(edge_list<directedness::undirected, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list(A, *this); }
+  index_vov(edge_list<directedness::undirected, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
 private:
   num_edges_type num_edges_;
-- 
2.43.0


From 32a0d1a5d7d60d3e34724cbc744b10fc3fdb0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 26/45] fix: kruskal sizes its disjoint sets by the number of
 vertices, not of edges

---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From 4ea895009d9e2294c90a818aba1b561e4285e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 27/45] fix: prim compiles, starts from its source and takes
 the lightest edge first

---
 include/nwgraph/algorithms/prim.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/prim.hpp b/include/nwgraph/algorithms/prim.hpp
index c01800f..9356dca 100644
--- a/include/nwgraph/algorithms/prim.hpp
+++ b/include/nwgraph/algorithms/prim.hpp
@@ -19,6 +19,11 @@
 #include "nwgraph/graph_traits.hpp"
 #include "nwgraph/edge_list.hpp"
 
+#include <cassert>
+#include <functional>
+#include <limits>
+#include <queue>
+#include <tuple>
 #include <vector>
 
 namespace nw {
@@ -43,31 +48,33 @@ std::vector<vertex_id_t<Graph>> prim(const Graph& graph, vertex_id_t<Graph> sour
   assert(source < N);
 
   std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
-  std::vector<Distance> predecessor(N, std::numeric_limits<Distance>::max());
+  std::vector<vertex_id_type> predecessor(N, std::numeric_limits<vertex_id_type>::max());
   std::vector<uint8_t> finished(N, false);
   distance[source] = 0;
 
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
+  Q.push({ distance[source], source });
 
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     if (finished[u]) {
       continue;
     }
+    finished[u] = true;
 
-    std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
+    std::for_each(graph[u].begin(), graph[u].end(), [&](auto&& e) {
       auto v = target(graph, e);
       auto w = weight(e);
 
       if (!finished[v] && distance[v] > w) {
 	distance[v] = w;
-	Q.push({ v, distance[v] });
+	Q.push({ distance[v], v });
 	predecessor[v] = u;
       }
     });
-- 
2.43.0


From 8458fb3c0a40cbeb3a1bfdce4148f5c38408ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 28/45] fix: jones_plassmann_coloring gives adjacent vertices
 outside the independent set different colors

---
 .../algorithms/jones_plassmann_coloring.hpp   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
index e192f1a..8a386c7 100644
--- a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
+++ b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
@@ -17,6 +17,9 @@
 #ifndef JONES_PLASSMANN_COLORING_HPP
 #define JONES_PLASSMANN_COLORING_HPP
 
+#include <algorithm>
+#include <vector>
+
 #include "nwgraph/adaptors/dag_range.hpp"
 #include "nwgraph/adaptors/edge_range.hpp"
 #include "nwgraph/adaptors/plain_range.hpp"
@@ -79,6 +82,22 @@ void jones_plassmann_coloring(Graph& A, std::vector<size_t>& colors) {
     //find the first unused color within every independent vertex's neighbors
     colors[u] = firstMissingPositive(neighbor_colors[u]);
   }
+
+  //color every other vertex with the smallest color that none of its already colored neighbors has
+  std::vector<bool> colored(N, false);
+  for (auto& u : independentSet) {
+    colored[u] = true;
+  }
+  for (size_t u = 0; u < N; ++u) {
+    if (colored[u]) continue;
+    std::vector<bool> used(N + 1, false);
+    for (auto it = A[u].begin(); it != A[u].end(); ++it) {
+      auto v = std::get<0>(*it);
+      if (colored[v]) used[colors[v]] = true;
+    }
+    colors[u]  = std::find(used.begin(), used.end(), false) - used.begin();
+    colored[u] = true;
+  }
 }
 
 }    // namespace graph
-- 
2.43.0


From 87f093d576b4ef8566b7d0fe04666b572d898a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 29/45] fix: dag_based_mis sets its output whatever it held
 before

---
 include/nwgraph/algorithms/dag_based_mis.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nwgraph/algorithms/dag_based_mis.hpp b/include/nwgraph/algorithms/dag_based_mis.hpp
index 2869a13..f397bb8 100644
--- a/include/nwgraph/algorithms/dag_based_mis.hpp
+++ b/include/nwgraph/algorithms/dag_based_mis.hpp
@@ -36,6 +36,7 @@ namespace graph {
 template <adjacency_list_graph Graph>
 void dag_based_mis(Graph& A, std::vector<bool>& mis) {
   size_t N = A.size();
+  mis.assign(N, true);
 #ifdef PRINT_DEBUG
   std::cout << "size: " << N << std::endl;
 #endif
-- 
2.43.0


From 7a190b5ec909abe93d608547eed14594bf1852fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 30/45] fix: spMatspMatT reduces the products of an entry from
 the first one, not from 0

---
 include/nwgraph/algorithms/spMatspMat.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/spMatspMat.hpp b/include/nwgraph/algorithms/spMatspMat.hpp
index c8b786d..21c5636 100644
--- a/include/nwgraph/algorithms/spMatspMat.hpp
+++ b/include/nwgraph/algorithms/spMatspMat.hpp
@@ -19,7 +19,10 @@
 #define NW_GRAPH_SPMATSPMAT_HPP
 
 #include <algorithm>
+#include <functional>
+#include <iterator>
 #include <map>
+#include <numeric>
 #include <tuple>
 
 #include "nwgraph/adaptors/plain_range.hpp"
@@ -155,7 +158,7 @@ edge_list<directedness::directed, ScalarT> spMatspMatT(LGraphT& A, RGraphT& BT)
                              [](auto&& a, auto&& bt) -> ScalarT { return MapOpT()(std::get<1>(a), std::get<1>(bt)); });
 
       if (!products.empty()) {
-        ScalarT res = std::accumulate(products.begin(), products.end(), (ScalarT)0, ReduceOpT());
+        ScalarT res = std::accumulate(std::next(products.begin()), products.end(), products.front(), ReduceOpT());
         edges.push_back(row_idx, col_idx, res);
         // std::cout << "Added element (" << row_idx << ","
         //          << col_idx << ") = " << res << std::endl;
-- 
2.43.0


From 7c3069f32ded39fe25446c273c6a9fe5c5c30c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 31/45] fix: experimental betweenness leaves all-zero scores at
 zero and divides path counts as scores

---
 .../algorithms/betweenness_centrality.hpp     | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
index b5188f6..5878d2b 100644
--- a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
@@ -119,7 +119,9 @@ std::vector<score_t> approx_betweenness_brandes(const Graph& A, std::vector<type
   }
 
   score_t largest = *std::max_element(centrality.begin(), centrality.end());
-  std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+  if (largest > 0) {
+    std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+  }
   return centrality;
 }
 
@@ -286,7 +288,9 @@ std::vector<score_t> approx_betweenness_worklist_serial(const Graph& A, std::vec
   }
 
   score_t largest = *std::max_element(centrality.begin(), centrality.end());
-  std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+  if (largest > 0) {
+    std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+  }
   return centrality;
 }
 
@@ -1287,8 +1291,10 @@ auto bc2_v0(const Graph& graph, const std::vector<typename Graph::vertex_id_type
   }
   if (normalize) {
     score_t biggest_score = *max_element(bc.begin(), bc.end());
-    for (auto &j : bc)
-      j = j / biggest_score; 
+    if (biggest_score > 0) {
+      for (auto &j : bc)
+        j = j / biggest_score; 
+    }
   }
 
   return bc;
@@ -1355,8 +1361,10 @@ auto bc2_v1(const Graph& graph, const std::vector<typename Graph::vertex_id_type
 
   if (normalize) {
     score_t biggest_score = *max_element(bc.begin(), bc.end());
-    for (auto &j : bc)
-      j = j / biggest_score; 
+    if (biggest_score > 0) {
+      for (auto &j : bc)
+        j = j / biggest_score; 
+    }
   }
 
   return bc;
@@ -1432,7 +1440,9 @@ auto bc2_v2(const Graph& graph, const std::vector<typename Graph::vertex_id_type
   }
   if (normalize) {
     score_t biggest_score = *max_element(policy, bc.begin(), bc.end());
-    std::for_each(policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    if (biggest_score > 0) {
+      std::for_each(policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    }
   }
   return bc;
 }
@@ -1534,7 +1544,9 @@ auto bc2_v3(const Graph& graph, const std::vector<typename Graph::vertex_id_type
   }
   if (normalize) {
     score_t biggest_score = *max_element(outer_policy, bc.begin(), bc.end());
-    std::for_each(outer_policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    if (biggest_score > 0) {
+      std::for_each(outer_policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    }
   }
   return bc;
 }
@@ -1615,7 +1627,7 @@ auto bc2_v4(const Graph& graph, const std::vector<typename Graph::vertex_id_type
             auto&& v = target(graph, *x);
             //auto&& v = std::get<0>(*x);
             if (succ.get(&v - &edges)) {
-              delta += path_counts[u] / path_counts[v] * (1 + deltas[v]);
+              delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1 + deltas[v]);
             }
           }
           deltas[u] = delta;
@@ -1627,7 +1639,9 @@ auto bc2_v4(const Graph& graph, const std::vector<typename Graph::vertex_id_type
 
   if (normalize) {
     score_t biggest_score = *max_element(outer_policy, bc.begin(), bc.end());
-    std::for_each(outer_policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    if (biggest_score > 0) {
+      std::for_each(outer_policy, bc.begin(), bc.end(), [&](score_t& j) { j = j / biggest_score; });
+    }
   }
   return bc;
 }
-- 
2.43.0


From 464f8144d526716a2082cfc9bf11370f24c4d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 32/45] fix: bc2_v2 adds up concurrent path counts atomically

---
 .../nwgraph/experimental/algorithms/betweenness_centrality.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
index 5878d2b..23687a1 100644
--- a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
@@ -1384,7 +1384,7 @@ auto bc2_v2(const Graph& graph, const std::vector<typename Graph::vertex_id_type
 
     std::fill(policy, depths.begin(), depths.end(), std::numeric_limits<vertex_id_type>::max());
 
-    std::vector<accum_t> path_counts(N, 0);
+    std::vector<std::atomic<accum_t>> path_counts(N);
 
     std::vector<tbb::concurrent_vector<vertex_id_type>> P(N);
     std::vector<tbb::concurrent_vector<vertex_id_type>> S(2);
-- 
2.43.0


From 747b4d01c673fe8193bb5a0722f2da41b11022ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 33/45] fix: delta_stepping_v6 lowers distances atomically and
 grows its bins without shrinking them

---
 .../experimental/algorithms/delta_stepping.hpp  | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 194faf3..772fc10 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -54,14 +54,15 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
   tdist[source] = 0;
 
   auto relax = [&](Id i, Id j, auto wt) {
-    auto new_distance = tdist[i] + wt;
-    if (new_distance < tdist[j]) {
-      tdist[j]        = new_distance;
-      size_t dest_bin = new_distance / delta;
-      if (dest_bin >= bins.size()) {
-        bins.resize(dest_bin + 1);
+    distance_t new_distance = nw::graph::acquire(tdist[i]) + wt;
+    distance_t old_distance = nw::graph::acquire(tdist[j]);
+    while (new_distance < old_distance) {
+      if (nw::graph::cas(tdist[j], old_distance, new_distance)) {
+        size_t dest_bin = new_distance / delta;
+        bins.grow_to_at_least(dest_bin + 1);
+        bins[dest_bin].push_back(j);
+        break;
       }
-      bins[dest_bin].push_back(j);
     }
   };
 
@@ -71,7 +72,7 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (nw::graph::acquire(tdist[i]) >= delta * top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) { std::apply([&](Id j, auto wt) { relax(i, j, wt); }, std::move(elt)); });
       }
     });
-- 
2.43.0


From f9fe7f7d6db173a8bb7d31624a003541456a55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 34/45] fix: select copies from the tuple it is given unless it
 is an rvalue

---
 include/nwgraph/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/util.hpp b/include/nwgraph/util/util.hpp
index c0c3b60..97baeb7 100644
--- a/include/nwgraph/util/util.hpp
+++ b/include/nwgraph/util/util.hpp
@@ -114,7 +114,7 @@ struct counter : public std::iterator<std::output_iterator_tag, std::ptrdiff_t>
 template <std::size_t... Is, class Tuple, class = std::enable_if_t<is_tuple_v<std::decay_t<Tuple>>>>
 constexpr auto select(Tuple&& t) -> std::tuple<std::tuple_element_t<Is, std::decay_t<Tuple>>...> {
   static_assert(((Is < std::tuple_size_v<std::decay_t<Tuple>>)&&...), "tuple index out of range during select");
-  return {std::forward<std::tuple_element_t<Is, std::decay_t<Tuple>>>(std::get<Is>(std::forward<Tuple>(t)))...};
+  return {std::get<Is>(std::forward<Tuple>(t))...};
 }
 
 /// Meta-function to get the type of a tuple after selection (see `select`).
-- 
2.43.0


From 6cf7006aae780c9207dd86d0488e1fdb934ff512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 35/45] fix: random sources are drawn from the vertices of the
 graph

---
 bench/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index a5e378a..c724951 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -126,7 +126,7 @@ auto build_random_sources(const Graph& graph, size_t n, long seed) {
   auto sources = std::vector<Id>(n);
   auto degrees = build_degrees(graph);
   auto gen     = std::mt19937(seed);
-  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph));
+  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph) - 1);
 
   for (auto& id : sources) {
     for (id = dis(gen); degrees[id] == 0; id = dis(gen)) {
-- 
2.43.0


From 6248b923cd7a3b31646afa32a4223e8affc91724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 36/45] fix: print_n_ranks prints at most as many ranks as
 there are scores

---
 bench/bc.cpp | 2 +-
 bench/pr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 512b0e1..f5bbbfb 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -54,7 +54,7 @@ using accum_t = double;
 template <typename Vector>
 void print_n_ranks(const Vector& centrality, size_t n) {
   auto perm = proxysort<size_t>(centrality, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0; i < std::min(n, perm.size()); ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(centrality[perm[i]]) << std::endl;
   }
 }
diff --git a/bench/pr.cpp b/bench/pr.cpp
index 1ba3aa1..753a47e 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -46,7 +46,7 @@ using namespace nw::util;
 template <typename Vector>
 void print_n_ranks(const Vector& rankings, size_t n) {
   auto perm = proxysort<size_t>(rankings, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0; i < std::min(n, perm.size()); ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(rankings[perm[i]]) << std::endl;
   }
 }
-- 
2.43.0


From 32a5e96d9613718ce86353adb6a5aaa38b4bb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 37/45] fix: the sssp verifier's dijkstra marks unreachable
 vertices like its callers do

---
 bench/sssp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 238712f..22d846a 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -59,7 +59,7 @@ static auto dijkstra(const Graph& graph, vertex_id_t<Graph> source,
 
 
   // Distances
-  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max()/4);
+  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max());
 
   // Workqueue
   //  using WN = std::tuple<vertex_id_type, distance_t>;
-- 
2.43.0


From 3041f5f0ea0d1bcb7795152fdd43535f694f3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 38/45] fix: bfs_v1 and bfs_v2 keep a queue for every slot of
 the arena

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 13be7fb..b8a77cd 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -469,7 +469,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // a worker uses the queue of its slot in the arena, and every slot may be used
+  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   const std::size_t                                   N = num_vertices(out_graph);
   const std::size_t                                   M = out_graph.to_be_indexed_.size();
   Vector queue;
@@ -564,7 +565,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  size_t n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  // a worker uses the queue of its slot in the arena, and every slot may be used
+  size_t n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   size_t N = num_vertices(out_graph);
   Vector parents(N);
   constexpr const auto null_vertex = null_vertex_v<vertex_id_type>();
-- 
2.43.0


From c440d8195469eef7958bc7506ff33856545acdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 39/45] fix: lpcc and lpcc_cyclic keep a bin for every slot of
 the arena

---
 .../nwgraph/experimental/algorithms/connected_components.hpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5f658a3..f9f8699 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -306,6 +306,8 @@ std::vector<T> ccv1(const Graph& g) {
 template<typename Execution, adjacency_list_graph Graph, typename T = vertex_id_t<Graph>>
 std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
   //nw::util::life_timer _(__func__);
+  // a worker uses the bin of its slot in the arena, and every slot may be used
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
   size_t     num_nodes = g.size();
   std::vector<T> comp(num_nodes);
   nw::graph::AtomicBitVector   visited(num_nodes);
@@ -369,6 +371,8 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
 template<typename Execution, adjacency_list_graph Graph, typename T = vertex_id_t<Graph>>
 std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
   //nw::util::life_timer _(__func__);
+  // a worker uses the bin of its slot in the arena, and every slot may be used
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
   size_t     num_nodes = g.size();
   std::vector<T> comp(num_nodes);
   nw::graph::AtomicBitVector   visited(num_nodes);
-- 
2.43.0


From 7774ec6ea0f41301a180e96bd169709945392155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 40/45] fix: the sssp driver draws a source for every iteration
 of every trial

---
 bench/sssp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 22d846a..3673481 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -182,10 +182,10 @@ int main(int argc, char* argv[]) {
     sources = load_sources_from_file(graph, args["--sources"].asString());
     assert(size_t(trials * iterations) <= sources.size());
   } else if (args["-r"]) {
-    sources.resize(trials);
+    sources.resize(trials * iterations);
     std::fill(sources.begin(), sources.end(), args["-r"].asLong());
   } else {
-    sources = build_random_sources(graph, trials, args["--seed"].asLong());
+    sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
   Times times;
-- 
2.43.0


From 618b09890c1c2f5ebcff97fbd5849f1735e8c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 41/45] fix: compressed graphs count the entries of the indexed
 side, in their index type

---
 include/nwgraph/build.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 2a16763..a442111 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -217,7 +217,11 @@ void fill_helper_tmp(edge_list_t& el, adjacency_t& cs, std::index_sequence<Is...
 template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t, class Int, class ExecutionPolicy = default_execution_policy>
 void fill_directed(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&& policy = {}) {
 
-  auto degree = degrees<idx>(el);
+  // Only the idx side counts, whatever the directedness of el, and counts of entries are of index type, not of vertex id type
+  using index_type = typename decltype(cs.indices_)::value_type;
+  std::vector<std::atomic<index_type>> tally(N);
+  std::for_each(policy, el.begin(), el.end(), [&](auto&& x) { ++tally[std::get<idx>(x)]; });
+  std::vector<index_type> degree(tally.begin(), tally.end());
 
   cs.indices_.resize(N + 1);
   cs.indices_[0] = 0;
@@ -289,7 +293,7 @@ void fill_undirected(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&&
   std::copy(policy, std::get<kdx>(el).begin(), std::get<kdx>(el).end(), Tmp.begin() + el.size());
 
   {
-    std::vector<vertex_id_type> degrees(N);
+    std::vector<typename decltype(cs.indices_)::value_type> degrees(N);
     cs.indices_.resize(N + 1);
     cs.indices_[0] = 0;
     std::for_each(/* policy, */ Tmp.begin(), Tmp.end(), [&](auto&& i) { ++degrees[i]; });
-- 
2.43.0


From ab9bab7a1b760173849d0cd61387140170714835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 42/45] fix: make_adjacency and make_biadjacency with vertex
 counts compile

---
 include/nwgraph/adjacency.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index daf9953..e059261 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -189,7 +189,9 @@ auto make_adjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_adjacency(edge_list_t& el, u_integral n, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   adjacency<idx> adj(n);
-  fill<idx>(el, adj, edge_directedness, policy);
+  fill<idx>(el, adj, edge_directedness, false, policy);
+  // vertices past those mentioned in the edge list have no neighbors
+  if (adj.indices_.size() < n + 1) adj.indices_.resize(n + 1, adj.indices_.back());
   return adj;
 }
 
@@ -312,7 +314,9 @@ auto make_biadjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_biadjacency(edge_list_t& el, u_integral n0, u_integral n1, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   biadjacency<idx> adj(n0, n1);
-  fill_biadjacency<idx>(el, adj, policy);
+  fill_biadjacency<idx>(el, adj, false, policy);
+  // vertices past those mentioned in the edge list have no neighbors
+  if (adj.indices_.size() < n0 + 1) adj.indices_.resize(n0 + 1, adj.indices_.back());
   return adj;
 }
 
-- 
2.43.0


From 2e4a0204e3945fa322855d47290c8e17a7e0c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 43/45] fix: make_plain_graph builds from records of any type

---
 include/nwgraph/build.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index a442111..a7d1a14 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -679,7 +679,7 @@ template <class M, std::ranges::random_access_range E, class Edge = decltype(std
 auto make_plain_edges(M& map, const E& edges) {
   EdgeList index_edges;
 
-  for (Edge&& e : edges) {
+  for (auto&& e : edges) {
     std::apply([&](auto&& u, auto&& v, auto... props_) { index_edges.push_back(std::make_tuple(map[u], map[v])); }, e);
   }
 
-- 
2.43.0


From 5da1a9467603c3bafca9265238cc1334b9fed3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:23 +0000
Subject: [PATCH 44/45] fix: k_core peels vertices of degree below k until none
 is left

---
 include/nwgraph/algorithms/k_core.hpp | 35 +++++++++++++++++----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/algorithms/k_core.hpp b/include/nwgraph/algorithms/k_core.hpp
index bf97263..7bc5599 100644
--- a/include/nwgraph/algorithms/k_core.hpp
+++ b/include/nwgraph/algorithms/k_core.hpp
@@ -67,28 +67,37 @@ template <adjacency_list_graph Graph>
 std::tuple<Unordered_map, size_t> k_core(const Graph& A, int k) {
   Unordered_map filter;
 
-  size_t                          n_vtx     = A.size();
-  size_t                          old_n_vtx = n_vtx;
+  size_t                          n_vtx = A.size();
   std::vector<int>                degree(n_vtx, 0);
-  std::vector<vertex_id_t<Graph>> relabel(n_vtx);
+  std::vector<bool>               removed(n_vtx, false);
+  std::vector<vertex_id_t<Graph>> worklist;
 
   for (auto&& [u, v] : edge_range(A)) {
     ++degree[v];
   }
 
-  dfs_edge_range ranges(A, 0);
-  auto           ite = ranges.begin();
-  for (; ite != ranges.end(); ++ite) {
-    auto v = std::get<1>(*ite);
-    auto w = std::get<2>(*ite);
+  for (size_t v = 0, e = A.size(); v < e; ++v) {
+    if (degree[v] < k) {
+      removed[v] = true;
+      worklist.push_back(v);
+    }
+  }
+
+  // removing a vertex removes its edges, which may leave its neighbors with less than k
+  while (!worklist.empty()) {
+    auto v = worklist.back();
+    worklist.pop_back();
+    --n_vtx;
 
-    Neighbors edge = make_my_pair(v, w);
+    for (auto&& elt : A[v]) {
+      auto w = target(A, elt);
 
-    if (filter.find(edge) == filter.end() && degree[v] < k) {
-      if (--degree[w] == 0) n_vtx--;
-      if (--degree[v] == 0) n_vtx--;
+      filter.insert({make_my_pair(v, w), true});
 
-      filter.insert({edge, true});
+      if (--degree[w] < k && !removed[w]) {
+        removed[w] = true;
+        worklist.push_back(w);
+      }
     }
   }
 
-- 
2.43.0


From 7e2edda9ac8ef95cf069f0a949c1be993e1b850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 45/45] fix: edge lists and compressed graphs print to the
 stream they are given

---
 include/nwgraph/containers/compressed.hpp | 10 +++++-----
 include/nwgraph/edge_list.hpp             | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index aa48d2b..aa32840 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -552,11 +552,11 @@ public:    // fixme
 
   void stream_stats(std::ostream& os = std::cout) const {
     int status = -4;
-    std::cout << "% ";
-    std::cout << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status);
-    std::cout << std::string("indices_.size() ") + std::to_string(indices_.size()) + " ";
-    std::cout << std::string("to_be_indexed_.size() ") + std::to_string(to_be_indexed_.size());
-    std::cout << std::endl;
+    os << "% ";
+    os << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status);
+    os << std::string("indices_.size() ") + std::to_string(indices_.size()) + " ";
+    os << std::string("to_be_indexed_.size() ") + std::to_string(to_be_indexed_.size());
+    os << std::endl;
   }
 };
 
diff --git a/include/nwgraph/edge_list.hpp b/include/nwgraph/edge_list.hpp
index e284ebb..e52fdb6 100644
--- a/include/nwgraph/edge_list.hpp
+++ b/include/nwgraph/edge_list.hpp
@@ -234,20 +234,20 @@ public:
 
   void stream_stats(std::ostream& os = std::cout) const {
     int status = -4;
-    std::cout << "% ";
-    std::cout << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status) + ": " +
+    os << "% ";
+    os << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status) + ": " +
                      "graph_base::vertex_cardinality = " + std::to_string(graph_base::vertex_cardinality[0]) + " ";
     if constexpr (false == is_unipartite<graph_base>::value) {
-      std::cout << std::to_string(graph_base::vertex_cardinality[1]) + " ";
+      os << std::to_string(graph_base::vertex_cardinality[1]) + " ";
     }
-    std::cout << std::string("base::size() = ") + std::to_string(base::size());
-    std::cout << std::endl;
+    os << std::string("base::size() = ") + std::to_string(base::size());
+    os << std::endl;
   }
 
   void stream_edges(std::ostream& os = std::cout) {
-    std::for_each(base::begin(), base::end(), [](auto&& x) {
-      std::apply([&](auto&... field) { ((std::cout << field << " "), ...); }, x);
-      std::cout << std::endl;
+    std::for_each(base::begin(), base::end(), [&](auto&& x) {
+      std::apply([&](auto&... field) { ((os << field << " "), ...); }, x);
+      os << std::endl;
     });
   }
 
-- 
2.43.0

