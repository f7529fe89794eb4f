From 7ffeadc68adeab2368f32ad84bbbb39efe34edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 01/38] fix: carry edge weights, degrees and gains in 64 bits
 throughout

Weighted degrees, accumulated connectivities and priority queue keys were
stored in 32-bit (or 16-bit) variables although EdgeWeight has 64 bits, so
graphs with weights beyond 32 bits could yield a wrong cut value.
---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h   | 4 ++--
 lib/algorithms/global_mincut/ks_minimum_cut.h            | 4 ++--
 lib/algorithms/multicut/edge_selection.h                 | 4 ++--
 lib/algorithms/multicut/local_search.h                   | 2 +-
 lib/coarsening/contract_graph.h                          | 2 +-
 lib/coarsening/contraction_tests.h                       | 4 ++--
 lib/common/definitions.h                                 | 2 +-
 lib/data_structure/priority_queues/bucket_pq.h           | 6 +++---
 lib/data_structure/priority_queues/fifo_node_bucket_pq.h | 6 +++---
 lib/data_structure/priority_queues/node_bucket_pq.h      | 6 +++---
 lib/parallel/algorithm/exact_parallel_minimum_cut.h      | 2 +-
 lib/parallel/coarsening/contract_graph.h                 | 8 ++++----
 lib/parallel/coarsening/contraction_tests.h              | 8 ++++----
 lib/parallel/coarsening/label_propagation.h              | 2 +-
 14 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..b8c9a56 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -543,7 +543,7 @@ class recursive_cactus {
 
     std::tuple<NodeID, EdgeID, NodeID> maximumWeightedFlowEdge(
         mutableGraphPtr G) {
-        NodeWeight max_degree = 0;
+        EdgeWeight max_degree = 0;
         NodeID s = UNDEFINED_NODE;
 
         for (NodeID n : G->nodes()) {
@@ -556,7 +556,7 @@ class recursive_cactus {
 
         NodeID t = UNDEFINED_NODE;
         EdgeID e = UNDEFINED_EDGE;
-        NodeWeight max_ngbr = 0;
+        EdgeWeight max_ngbr = 0;
         for (EdgeID edge : G->edges_of(s)) {
             NodeID ngbr = G->getEdgeTarget(s, edge);
             if (G->getWeightedNodeDegree(ngbr) > max_ngbr &&
diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..9e16328 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -169,8 +169,8 @@ class ks_minimum_cut : public minimum_cut {
                     NodeID tgt = G->getEdgeTarget(e);
                     EdgeWeight wgte = G->getEdgeWeight(e);
                     if (tgt > n && currentN > 2) {
-                        NodeWeight degn = G->getWeightedNodeDegree(n);
-                        NodeWeight degt = G->getWeightedNodeDegree(tgt);
+                        EdgeWeight degn = G->getWeightedNodeDegree(n);
+                        EdgeWeight degt = G->getWeightedNodeDegree(tgt);
                         if (wgte > G->getMinDegree() || wgte * 2 > degn
                             || wgte * 2 > degt) {
                             NodeID first = uf.Find(n);
diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 764fa22..00cf8be 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -109,8 +109,8 @@
 
 [[maybe_unused]] static std::tuple<NodeID, EdgeID> findEdgeWithManyTerminals(
     const problemPointer problem) {
-    std::unordered_map<NodeID, uint16_t> terms;
-    NodeID max_num = 0;
+    std::unordered_map<NodeID, EdgeWeight> terms;
+    EdgeWeight max_num = 0;
     NodeID max_ngbr = 0;
     std::unordered_set<NodeID> termset;
     for (const auto& term : problem->terminals) {
diff --git a/lib/algorithms/multicut/local_search.h b/lib/algorithms/multicut/local_search.h
index e14ce02..25dcb37 100644
--- a/lib/algorithms/multicut/local_search.h
+++ b/lib/algorithms/multicut/local_search.h
@@ -29,7 +29,7 @@ class local_search {
     std::vector<NodeID>* sol;
     std::unordered_map<NodeID, NodeID> movedToNewBlock;
     std::vector<std::vector<FlowType> > previousConnectivity;
-    std::vector<NodeID> noImprovement;
+    std::vector<FlowType> noImprovement;
 
  public:
     local_search(const mutable_graph& original_graph,
diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..ff311e4 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -76,7 +76,7 @@ class contraction {
     static void findTrivialCuts(GraphPtr G,
                                 std::vector<NodeID>* m,
                                 std::vector<std::vector<NodeID> >* rm,
-                                int target_mindeg) {
+                                int64_t target_mindeg) {
         // non-const references for better syntax
         std::vector<NodeID>& mapping = *m;
         std::vector<std::vector<NodeID> >& reverse_mapping = *rm;
diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..2ee43fb 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -61,11 +61,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..2554cbb 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -32,7 +32,7 @@ typedef uint64_t PathID;
 typedef uint32_t PartitionID;
 typedef uint32_t NodeWeight;
 typedef uint64_t EdgeWeight;
-typedef NodeWeight Gain;
+typedef EdgeWeight Gain;
 typedef int32_t Color;
 typedef uint64_t Count;
 typedef int64_t FlowType;
diff --git a/lib/data_structure/priority_queues/bucket_pq.h b/lib/data_structure/priority_queues/bucket_pq.h
index d305922..f816183 100644
--- a/lib/data_structure/priority_queues/bucket_pq.h
+++ b/lib/data_structure/priority_queues/bucket_pq.h
@@ -49,7 +49,7 @@ class bucket_pq : public priority_queue_interface {
  private:
     NodeID m_elements;
     EdgeWeight m_gain_span;
-    unsigned m_max_idx;
+    EdgeWeight m_max_idx;
 
     std::unordered_map<NodeID, std::pair<Count, Gain> > m_queue_index;
     std::vector<std::vector<NodeID> > m_buckets;
@@ -68,7 +68,7 @@ inline NodeID bucket_pq::size() {
 }
 
 inline void bucket_pq::insert(NodeID node, Gain gain) {
-    unsigned address = gain + m_gain_span;
+    EdgeWeight address = gain + m_gain_span;
     if (address > m_max_idx) {
         m_max_idx = address;
     }
@@ -132,7 +132,7 @@ inline void bucket_pq::deleteNode(NodeID node) {
     VIECUT_ASSERT_TRUE(m_queue_index.find(node) != m_queue_index.end());
     Count in_bucket_idx = m_queue_index[node].first;
     Gain old_gain = m_queue_index[node].second;
-    unsigned address = old_gain + m_gain_span;
+    EdgeWeight address = old_gain + m_gain_span;
 
     if (m_buckets[address].size() > 1) {
         // swap current element with last element and pop_back
diff --git a/lib/data_structure/priority_queues/fifo_node_bucket_pq.h b/lib/data_structure/priority_queues/fifo_node_bucket_pq.h
index 5a98399..886c79b 100644
--- a/lib/data_structure/priority_queues/fifo_node_bucket_pq.h
+++ b/lib/data_structure/priority_queues/fifo_node_bucket_pq.h
@@ -49,7 +49,7 @@ class fifo_node_bucket_pq : public priority_queue_interface {
  private:
     NodeID m_elements;
     EdgeWeight m_gain_span;
-    unsigned m_max_idx;
+    EdgeWeight m_max_idx;
 
     std::vector<std::pair<Count, Gain> > m_queue_index;
     std::vector<std::deque<NodeID> > m_buckets;
@@ -74,7 +74,7 @@ inline NodeID fifo_node_bucket_pq::size() {
 }
 
 inline void fifo_node_bucket_pq::insert(NodeID node, Gain gain) {
-    unsigned address = gain + m_gain_span;
+    EdgeWeight address = gain + m_gain_span;
     if (address > m_max_idx) {
         m_max_idx = address;
     }
@@ -144,7 +144,7 @@ inline void fifo_node_bucket_pq::deleteNode(NodeID node) {
     VIECUT_ASSERT_TRUE(m_queue_index[node].first != UNDEFINED_COUNT);
 
     Gain old_gain = m_queue_index[node].second;
-    unsigned address = old_gain + m_gain_span;
+    EdgeWeight address = old_gain + m_gain_span;
     Count in_bucket_idx = m_queue_index[node].first - m_bucket_offset[address];
     m_bucket_offset[address]++;
 
diff --git a/lib/data_structure/priority_queues/node_bucket_pq.h b/lib/data_structure/priority_queues/node_bucket_pq.h
index 61d7689..d639b37 100644
--- a/lib/data_structure/priority_queues/node_bucket_pq.h
+++ b/lib/data_structure/priority_queues/node_bucket_pq.h
@@ -49,7 +49,7 @@ class node_bucket_pq : public priority_queue_interface {
  private:
     NodeID m_elements;
     EdgeWeight m_gain_span;
-    unsigned m_max_idx;
+    EdgeWeight m_max_idx;
 
     std::vector<std::pair<Count, Gain> > m_queue_index;
     std::vector<std::vector<NodeID> > m_buckets;
@@ -72,7 +72,7 @@ inline NodeID node_bucket_pq::size() {
 }
 
 inline void node_bucket_pq::insert(NodeID node, Gain gain) {
-    unsigned address = gain + m_gain_span;
+    EdgeWeight address = gain + m_gain_span;
     if (address > m_max_idx) {
         m_max_idx = address;
     }
@@ -137,7 +137,7 @@ inline void node_bucket_pq::deleteNode(NodeID node) {
     // ASSERT_TRUE(m_queue_index.find(node) != m_queue_index.end());
     Count in_bucket_idx = m_queue_index[node].first;
     Gain old_gain = m_queue_index[node].second;
-    unsigned address = old_gain + m_gain_span;
+    EdgeWeight address = old_gain + m_gain_span;
 
     if (m_buckets[address].size() > 1) {
         // swap current element with last element and pop_back
diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..f494260 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -183,7 +183,7 @@ class exact_parallel_minimum_cut : public minimum_cut {
         for (int i = 0; i < omp_get_num_threads(); ++i) {
             fifo_node_bucket_pq pq(G->number_of_nodes(), mincut + 1);
             std::vector<bool> blacklisted(G->number_of_nodes(), false);
-            std::vector<NodeID> r_v(G->number_of_nodes(), 0);
+            std::vector<EdgeWeight> r_v(G->number_of_nodes(), 0);
             std::vector<bool> local_visited(G->number_of_nodes(), false);
 
             NodeID starting_node = start_nodes[i];
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..d39506a 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -65,7 +65,7 @@ class contraction {
     static void findTrivialCuts(GraphPtr G,
                                 std::vector<NodeID>* m,
                                 std::vector<std::vector<NodeID> >* rm,
-                                NodeWeight target_mindeg) {
+                                EdgeWeight target_mindeg) {
         // create non-const references for better syntax
         std::vector<NodeID>& mapping = *m;
         std::vector<std::vector<NodeID> >& rev_mapping = *rm;
@@ -74,9 +74,9 @@ class contraction {
 #pragma omp parallel for schedule(dynamic, 1024)
         for (NodeID p = 0; p < rev_mapping.size(); ++p) {
             NodeID bestNode;
-            NodeWeight improve = 0;
-            NodeWeight node_degree = 0;
-            NodeWeight block_degree = 0;
+            EdgeWeight improve = 0;
+            EdgeWeight node_degree = 0;
+            EdgeWeight block_degree = 0;
             if (rev_mapping[p].size() < std::log2(G->number_of_nodes())) {
                 NodeID improve_idx;
                 for (NodeID node = 0; node < rev_mapping[p].size(); ++node) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..be1ac6a 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
diff --git a/lib/parallel/coarsening/label_propagation.h b/lib/parallel/coarsening/label_propagation.h
index 0b368de..a77e846 100644
--- a/lib/parallel/coarsening/label_propagation.h
+++ b/lib/parallel/coarsening/label_propagation.h
@@ -65,7 +65,7 @@ class label_propagation {
 
             m_mt.seed(random_functions::getSeed() + omp_get_thread_num());
 
-            std::vector<std::pair<NodeID, NodeID> > wgt(
+            std::vector<std::pair<NodeID, EdgeWeight> > wgt(
                 G->number_of_nodes(), std::make_pair(0, 0));
             timer t;
             for (int j = 0; j < iterations; j++) {
-- 
2.43.0


From 21867848f2348885cd088dba66cabbf7fe723d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 02/38] fix: hand over the spare problem of the multicut queue
 atomically

---
 .../problem_queues/per_thread_problem_queue.h     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..f782b60 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -164,12 +164,16 @@ class per_thread_problem_queue {
         if (!haveSendProblem) {
             send_problem_mutex.lock();
 
-            sendProblem = p;
-            sendProblemWeight = sendProblem->lower_bound;
-            haveSendProblem = true;
-            pop_mutex[min_index].unlock();
+            // another thread might have filled it in the meantime
+            if (!haveSendProblem) {
+                sendProblem = p;
+                sendProblemWeight = sendProblem->lower_bound;
+                haveSendProblem = true;
+                pop_mutex[min_index].unlock();
+                send_problem_mutex.unlock();
+                return local_id;
+            }
             send_problem_mutex.unlock();
-            return local_id;
         }
 
         sizes[min_index].first += 1;
@@ -183,7 +187,6 @@ class per_thread_problem_queue {
                 sendProblem = p;
                 sendProblemWeight = sendProblem->lower_bound;
                 movedProblem = true;
-                send_problem_mutex.unlock();
             }
             send_problem_mutex.unlock();
         }
-- 
2.43.0


From f85c2997f6c1aac68519c01162515d9bf28f78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 03/38] fix: release the MPI mutex when the solver finishes

---
 lib/algorithms/multicut/branch_multicut.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..10a1ed5 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -235,6 +235,7 @@ class branch_multicut {
                             if (std::get<bool>(src)) {
                                 pm.setFinish();
                                 pm.notifyAllThreads();
+                                mpi_mutex.unlock();
                                 return;
                             }
 
@@ -265,6 +266,7 @@ class branch_multicut {
                                                   MPI_COMM_WORLD, &fr);
                                         pm.setFinish();
                                         pm.notifyAllThreads();
+                                        mpi_mutex.unlock();
                                         return;
                                     }
                                 }
-- 
2.43.0


From 0deb6083c9e205ae60d2958849292af4079f9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 04/38] fix: share the multicut solver's bounds and flags
 without data races

---
 lib/algorithms/multicut/branch_multicut.h     |  4 +-
 lib/algorithms/multicut/mpi_communication.h   |  4 ++
 lib/algorithms/multicut/problem_management.h  | 41 +++++++++++--------
 .../problem_queues/per_thread_problem_queue.h |  6 +--
 4 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10a1ed5..e3a656a 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -625,9 +625,9 @@ class branch_multicut {
     maximum_flow mf;
     problem_management pm;
     measurements msm;
-    FlowType last_sent_flow;
+    std::atomic<FlowType> last_sent_flow;
     std::atomic<double> log_timer;
-    bool finished;
+    std::atomic<bool> finished;
 
 #ifdef USE_GUROBI
     ilp_model ilp;
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..a3a53fe 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -14,6 +14,7 @@
 
 #include <chrono>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <vector>
 
@@ -32,6 +33,7 @@ class mpi_communication {
     }
 
     FlowType getGlobalBestSolution() {
+        std::lock_guard<std::mutex> lock(solution_mutex);
         int result = 1;
         while (result > 0) {
             MPI_Status status;
@@ -52,6 +54,7 @@ class mpi_communication {
     }
 
     void broadcastImprovedSolution(FlowType solution) {
+        std::lock_guard<std::mutex> lock(solution_mutex);
         FlowType beforeBest = best_solution;
         if (solution < best_solution) {
             bool updated = __sync_bool_compare_and_swap(
@@ -221,6 +224,7 @@ class mpi_communication {
     int mpi_size;
     int mpi_rank;
     std::vector<MPI_Request> req;
+    std::mutex solution_mutex;
     bool bestSolutionLocal;
     FlowType best_solution;
 };
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..32270e8 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -11,9 +11,11 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <unordered_set>
 #include <vector>
 
@@ -44,15 +46,15 @@ class problem_management {
     size_t num_threads;
     std::vector<std::mutex> q_mutex;
     std::vector<std::condition_variable> q_cv;
-    bool is_finished;
+    std::atomic<bool> is_finished;
     std::atomic<uint> idle_threads;
 
-    FlowType global_upper_bound;
+    std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
     std::vector<FlowType> beforeLSGUB;
 
     std::vector<NodeID> best_solution;
-    bool bestSolutionInitialized;
+    std::atomic<bool> bestSolutionInitialized;
     measurements msm;
     timer t;
     int mpi_size;
@@ -264,23 +266,26 @@ class problem_management {
         local_search ls(original_graph, original_terminals,
                         fixed_vertex, current_solution);
         FlowType prev_gub = msm.flowValue(false, *current_solution);
-        if (prev_gub > beforeLSGUB[numTerminals])
-            return std::nullopt;
-
-        if (prev_gub < global_upper_bound) {
-            global_upper_bound = prev_gub;
-            LOG1 << "Improvement after " << t.elapsed()
-                 << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
-            for (size_t i = 0; i < current_solution->size(); ++i) {
-                best_solution[i] = (*current_solution)[i];
+        {
+            // bound and solution have to change together
+            std::lock_guard<std::mutex> lock(bestsol_mutex);
+            if (prev_gub > beforeLSGUB[numTerminals])
+                return std::nullopt;
+
+            if (prev_gub < global_upper_bound) {
+                global_upper_bound = prev_gub;
+                LOG1 << "Improvement after " << t.elapsed()
+                     << " to " << prev_gub << " (beforehand)";
+                for (size_t i = 0; i < current_solution->size(); ++i) {
+                    best_solution[i] = (*current_solution)[i];
+                }
+                initalizeBestSolution();
             }
-            initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         if (ls_bound <= terminalGUB[numTerminals]) {
             terminalGUB[numTerminals] = ls_bound;
             beforeLSGUB[numTerminals] = prev_gub;
@@ -290,12 +295,10 @@ class problem_management {
             global_upper_bound = ls_bound;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
             return ls_bound;
         }
         return std::nullopt;
@@ -381,12 +384,14 @@ class problem_management {
     }
 
     bool runLocalSearch(problemPointer problem) {
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         return problem->upper_bound < beforeLSGUB[problem->terminals.size()]
                && configuration::getConfig()->runLocalSearch;
     }
 
     void updateBound(FlowType newSolution) {
-        global_upper_bound = std::min(newSolution, global_upper_bound);
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
+        global_upper_bound = std::min(newSolution, global_upper_bound.load());
     }
 
     FlowType bestCut() {
diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index f782b60..ccdd63d 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -290,10 +290,10 @@ class per_thread_problem_queue {
                                              const problemPointer&)> > > pq;
 
     problemPointer sendProblem;
-    bool haveSendProblem;
-    FlowType sendProblemWeight;
+    std::atomic<bool> haveSendProblem;
+    std::atomic<FlowType> sendProblemWeight;
 
     std::vector<std::mutex> pop_mutex;
     std::mutex send_problem_mutex;
-    std::vector<std::pair<std::atomic<size_t>, bool> > sizes;
+    std::vector<std::pair<std::atomic<size_t>, std::atomic<bool> > > sizes;
 };
-- 
2.43.0


From e09f9d74bd4a7cf99ccceb86d3baad54b41517f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 05/38] fix: start the shared multicut bound above every 64-bit
 weight

---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index a3a53fe..5796c15 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -26,7 +26,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From 8c91a505268d2a7382bd94f91a4c80acb4040bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 06/38] fix: mark unknown cut values with a sentinel no 64-bit
 weight is below

---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h   | 6 +++---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 5 +++--
 lib/data_structure/adjlist_graph.h                    | 4 ++--
 lib/parallel/algorithm/parallel_cactus.h              | 6 +++---
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..d9e9094 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -59,7 +59,7 @@ class cactus_mincut : public minimum_cut {
 
     std::tuple<EdgeWeight, mutableGraphPtr,
                std::vector<std::pair<NodeID, EdgeID> > >
-    findAllMincuts(GraphPtr G, EdgeWeight known_mincut = UNDEFINED_NODE) {
+    findAllMincuts(GraphPtr G, EdgeWeight known_mincut = UNDEFINED_EDGE) {
         std::vector<GraphPtr> v = { G };
         return findAllMincuts(v, known_mincut);
     }
@@ -67,7 +67,7 @@ class cactus_mincut : public minimum_cut {
     std::tuple<EdgeWeight, mutableGraphPtr,
                std::vector<std::pair<NodeID, EdgeID> > >
     findAllMincuts(std::vector<GraphPtr> graphs,
-                   EdgeWeight known_mincut = UNDEFINED_NODE) {
+                   EdgeWeight known_mincut = UNDEFINED_EDGE) {
         if (graphs.size() == 0 || !graphs.back()) {
             mutableGraphPtr empty;
             return std::make_tuple(
@@ -76,7 +76,7 @@ class cactus_mincut : public minimum_cut {
         recursive_cactus<GraphPtr> rc;
         EdgeWeight mincut = graphs.back()->getMinDegree();
         timer t;
-        if (known_mincut == UNDEFINED_NODE) {
+        if (known_mincut == UNDEFINED_EDGE) {
             viecut<GraphPtr> vc;
             mincut = vc.perform_minimum_cut(graphs.back());
         } else {
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..069b273 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -74,13 +74,14 @@ class dynamic_mincut {
     }
 
     void checkCacheAndRecompute() {
-        EdgeWeight mincut = UNDEFINED_NODE;
+        EdgeWeight mincut = UNDEFINED_EDGE;
         if (lowestCachedMincut != UNDEFINED_EDGE) {
             noi_minimum_cut<mutableGraphPtr> noi;
             mincut = noi.perform_minimum_cut(original_graph);
         }
 
-        if (mincut == lowestCachedMincut &&
+        if (lowestCachedMincut != UNDEFINED_EDGE &&
+            mincut == lowestCachedMincut &&
             2 * cachedInserts.size() < cachedCactus[mincut]->n()) {
             buildCactusFromCache(mincut);
         } else {
diff --git a/lib/data_structure/adjlist_graph.h b/lib/data_structure/adjlist_graph.h
index 2472649..83b4b75 100644
--- a/lib/data_structure/adjlist_graph.h
+++ b/lib/data_structure/adjlist_graph.h
@@ -173,7 +173,7 @@ class adjlist_graph {
     }
 
     EdgeWeight getMinDegree() {
-        if (m_min_degree == UNDEFINED_NODE) {
+        if (m_min_degree == UNDEFINED_EDGE) {
             for (NodeID node = 0; node < m_num_nodes; ++node) {
                 EdgeWeight deg = getWeightedNodeDegree(node);
                 if (deg < m_min_degree) {
@@ -193,5 +193,5 @@ class adjlist_graph {
     NodeID m_num_nodes_merged;
     EdgeID m_num_edges;
     EdgeWeight m_max_degree = 0;
-    EdgeWeight m_min_degree = UNDEFINED_NODE;
+    EdgeWeight m_min_degree = UNDEFINED_EDGE;
 };
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..73ecbe4 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -67,7 +67,7 @@ class parallel_cactus : public minimum_cut {
 
     std::tuple<EdgeWeight, mutableGraphPtr,
                std::vector<std::pair<NodeID, EdgeID> > > findAllMincuts(
-        GraphPtr G, EdgeWeight known_mincut = UNDEFINED_NODE) {
+        GraphPtr G, EdgeWeight known_mincut = UNDEFINED_EDGE) {
         std::vector<GraphPtr> v = { G };
         return findAllMincuts(v, known_mincut);
     }
@@ -75,7 +75,7 @@ class parallel_cactus : public minimum_cut {
     std::tuple<EdgeWeight, mutableGraphPtr,
                std::vector<std::pair<NodeID, EdgeID> > > findAllMincuts(
         std::vector<GraphPtr> graphs,
-        EdgeWeight known_mincut = UNDEFINED_NODE) {
+        EdgeWeight known_mincut = UNDEFINED_EDGE) {
         if (graphs.size() == 0 || !graphs.back()) {
             mutableGraphPtr empty;
             return std::make_tuple(
@@ -85,7 +85,7 @@ class parallel_cactus : public minimum_cut {
         EdgeWeight mincut = graphs.back()->getMinDegree();
         recursive_cactus<GraphPtr> rc;
         exact_parallel_minimum_cut<GraphPtr> mc;
-        if (known_mincut != UNDEFINED_NODE) {
+        if (known_mincut != UNDEFINED_EDGE) {
 #ifdef PARALLEL
             viecut<GraphPtr> heuristic_mc;
             auto G2 = graphs.back();
-- 
2.43.0


From 22e0714e4569dae941e52e825735aef09acb82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 07/38] fix: give every thread its own random generator

---
 lib/tools/random_functions.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/tools/random_functions.h b/lib/tools/random_functions.h
index 1511253..627732c 100644
--- a/lib/tools/random_functions.h
+++ b/lib/tools/random_functions.h
@@ -24,8 +24,9 @@
 #include "tlx/logger.hpp"
 
 typedef std::mt19937 MersenneTwister;
-static int m_seed;
-static MersenneTwister m_mt;
+static int m_seed = MersenneTwister::default_seed;
+// generators are not thread-safe: one per thread, started from the seed
+static thread_local MersenneTwister m_mt(m_seed);
 
 class random_functions {
  public:
-- 
2.43.0


From 879829046fe912ac9f7dd70b4f094839636984ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 08/38] fix: honour the seed option of decremental_gnp

---
 app/decremental_gnp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index c512529..f1a0e4c 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -71,6 +71,8 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    random_functions::setSeed(cfg->seed);
+
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
-- 
2.43.0


From 668df784dace46647bb3405212c90698a6437c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 09/38] fix: mark vertices of a serialized graph by the vertex
 count

Markers and edge targets were told apart by the edge count, which may be
smaller than a target.
---
 lib/data_structure/mutable_graph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..a03fc0c 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -842,7 +842,6 @@ class mutable_graph {
     static mutableGraphPtr deserialize(std::vector<uint64_t> v) {
         mutableGraphPtr G = std::make_shared<mutable_graph>();
         uint64_t num_nodes = v[0];
-        size_t num_edges = v[1];
         uint64_t original_nodes = v[3];
         G->start_construction(num_nodes);
         G->set_partition_count(v[2]);
@@ -851,11 +850,12 @@ class mutable_graph {
         size_t deserial = 4;
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            // targets are smaller than num_nodes, vertex markers are not
+            if (next >= num_nodes) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - num_nodes;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -887,7 +887,7 @@ class mutable_graph {
         size_t next = 4;
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = static_cast<uint64_t>(vertices.size() + n);
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From 13b667d0ee8d545ad04d23f0d6f9f84c5651d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 10/38] fix: receive status messages as the MPI_INT they are
 sent as

A long was received into an int.
---
 lib/algorithms/multicut/branch_multicut.h   | 2 +-
 lib/algorithms/multicut/mpi_communication.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index e3a656a..0e7efdb 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -138,7 +138,7 @@ class branch_multicut {
 
             if (ms > 0) {
                 int re;
-                MPI_Recv(&re, 1, MPI_LONG, status.MPI_SOURCE, 3000,
+                MPI_Recv(&re, 1, MPI_INT, status.MPI_SOURCE, 3000,
                          MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
                 MessageStatus answer = allEmpty;
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 5796c15..7ea1cdc 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -150,7 +150,7 @@ class mpi_communication {
                    &result, MPI_STATUS_IGNORE);
         if (result > 0) {
             MPI_Status st;
-            MPI_Recv(&result, 1, MPI_LONG, MPI_ANY_SOURCE, 3000,
+            MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, 3000,
                      MPI_COMM_WORLD, &st);
             LOG << mpi_rank << " found probe from " << st.MPI_SOURCE;
             MessageStatus message = haveProblem;
@@ -181,7 +181,7 @@ class mpi_communication {
             int ms;
             MPI_Status stat;
 
-            MPI_Recv(&ms, 1, MPI_LONG, MPI_ANY_SOURCE, 3000,
+            MPI_Recv(&ms, 1, MPI_INT, MPI_ANY_SOURCE, 3000,
                      MPI_COMM_WORLD, &stat);
 
             if (ms == MessageStatus::allEmpty) {
-- 
2.43.0


From 40bee197854c8367e936c248f279d47aec02592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 11/38] fix: status messages sent without waiting need a buffer
 that stays

MPI_Isend was given local variables that went out of scope while the send
could still be pending.
---
 lib/algorithms/multicut/branch_multicut.h   | 8 ++++----
 lib/algorithms/multicut/mpi_communication.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 0e7efdb..16981cd 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -141,7 +141,7 @@ class branch_multicut {
                 MPI_Recv(&re, 1, MPI_INT, status.MPI_SOURCE, 3000,
                          MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
-                MessageStatus answer = allEmpty;
+                static const MessageStatus answer = allEmpty;
                 MPI_Request rq;
                 MPI_Isend(&answer, 1, MPI_INT, status.MPI_SOURCE,
                           3000, MPI_COMM_WORLD, &rq);
@@ -223,7 +223,7 @@ class branch_multicut {
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
                             if (sent_done) {
-                                int done = 0;
+                                static const int done = 0;
                                 sent_done = false;
                                 MPI_Request rq;
                                 MPI_Isend(&done, 1, MPI_INT, mpi_size - 1,
@@ -259,7 +259,7 @@ class branch_multicut {
 
                                 if (mpi_num_done == mpi_size - 1) {
                                     for (int i = 0; i < mpi_size - 1; ++i) {
-                                        MessageStatus fnl =
+                                        static const MessageStatus fnl =
                                             MessageStatus::allEmpty;
                                         MPI_Request fr;
                                         MPI_Isend(&fnl, 1, MPI_INT, i, 3000,
@@ -272,7 +272,7 @@ class branch_multicut {
                                 }
                             } else {
                                 if (!sent_done) {
-                                    int done = 1;
+                                    static const int done = 1;
                                     sent_done = true;
                                     MPI_Request rq;
                                     MPI_Isend(&done, 1, MPI_INT, mpi_size - 1,
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 7ea1cdc..e156698 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -166,7 +166,7 @@ class mpi_communication {
             return true;
         }
 
-        MessageStatus message = needProblem;
+        static const MessageStatus message = needProblem;
         int src = 0;
 
         do {
@@ -198,7 +198,7 @@ class mpi_communication {
             }
 
             if (ms == MessageStatus::needProblem) {
-                MessageStatus answer = emptyAsWell;
+                static const MessageStatus answer = emptyAsWell;
                 MPI_Request rq;
                 MPI_Isend(&answer, 1, MPI_INT, stat.MPI_SOURCE,
                           3000, MPI_COMM_WORLD, &rq);
-- 
2.43.0


From 0ca5a5e7e9859c636a8105e42bf5a223817359cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 12/38] fix: start received multicut problems without a
 priority edge

The default constructor left bounds, deleted weight and (after value
initialisation) priority edge {0, 0}, which was taken for an edge to
branch on.
---
 lib/algorithms/multicut/multicut_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multicut_problem.h b/lib/algorithms/multicut/multicut_problem.h
index 4698f22..2d10df2 100644
--- a/lib/algorithms/multicut/multicut_problem.h
+++ b/lib/algorithms/multicut/multicut_problem.h
@@ -41,7 +41,7 @@ struct terminal {
 };
 
 struct multicut_problem {
-    multicut_problem() { }
+    multicut_problem() : multicut_problem(mutableGraphPtr()) { }
 
     explicit multicut_problem(mutableGraphPtr G)
         : multicut_problem(G, std::vector<terminal>()) { }
-- 
2.43.0


From c0479607c4615e77b92f0686994ef6bb7f768e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 13/38] fix: stop if the multiterminal solver fails with an
 exception

---
 app/multiterminal_cut.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/multiterminal_cut.cpp b/app/multiterminal_cut.cpp
index e0de5a0..121f04d 100644
--- a/app/multiterminal_cut.cpp
+++ b/app/multiterminal_cut.cpp
@@ -108,9 +108,11 @@ int main(int argn, char** argv) {
 #ifdef USE_GUROBI
     } catch (GRBException e) {
         LOG1 << e.getMessage();
+        exit(-1);
 #endif
     } catch (const std::exception& e) {
         LOG1 << e.what();
+        exit(-1);
     }
     std::cout << "RESULT selection_rule=" << config->edge_selection
               << " pq=" << config->queue_type
-- 
2.43.0


From dee9024166d7a1d1d5811481dc0f6f1158a3374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 14/38] fix: give the flow number of recursive_cactus a start
 value

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index b8c9a56..c2eacdb 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -49,7 +49,7 @@
 template <class GraphPtr>
 class recursive_cactus {
  public:
-    recursive_cactus() { }
+    recursive_cactus() : recursive_cactus(0) { }
     explicit recursive_cactus(EdgeWeight mincut)
         : mincut(mincut), problem_id(random_functions::next()) { }
     ~recursive_cactus() { }
-- 
2.43.0


From f324f8f439b766dfb00261697083b70c82f2a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 15/38] fix: keep minimum cuts of merged vertices in
 allCutsPrTests12

The degree kept for a merged vertex was only an upper bound, so a merged
vertex that is a minimum cut itself could be merged further and the cut
was lost. Decide on the degrees of the original vertices.
---
 .../global_mincut/cactus/all_cut_local_red.h  | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index f92a43e..fc76682 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -30,31 +30,22 @@ class all_cut_local_red {
     static union_find allCutsPrTests12(mutableGraphPtr G,
                                        EdgeWeight limit) {
         union_find uf(G->number_of_nodes());
-        std::vector<EdgeWeight> degrees;
-        std::vector<bool> contracted(G->number_of_nodes(), false);
-
-        for (NodeID n : G->nodes()) {
-            degrees.push_back(G->getWeightedNodeDegree(n));
-        }
-
         for (NodeID n : G->nodes()) {
             for (EdgeID e : G->edges_of(n)) {
-                NodeID target = uf.Find(G->getEdgeTarget(n, e));
-                NodeID source = uf.Find(n);
+                NodeID target = G->getEdgeTarget(n, e);
                 EdgeWeight wgt = G->getEdgeWeight(n, e);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_tgt = G->getWeightedNodeDegree(target);
 
-                if (target != source
+                // degrees of the original vertices: the degree of a merged
+                // vertex is not known, and it might be a minimum cut itself
+                if (uf.Find(target) != uf.Find(n)
                     && (wgt > limit
-                        || 2 * wgt > degrees[source]
-                        || 2 * wgt > degrees[target])
-                    && degrees[source] > limit
-                    && degrees[target] > limit) {
-                    EdgeWeight new_w =
-                        degrees[source] + degrees[target] - (2 * wgt);
-
-                    degrees[source] = new_w;
-                    degrees[target] = new_w;
-                    uf.Union(source, target);
+                        || 2 * wgt > deg_n
+                        || 2 * wgt > deg_tgt)
+                    && deg_n > limit
+                    && deg_tgt > limit) {
+                    uf.Union(n, target);
                 }
             }
         }
-- 
2.43.0


From 56eadc390f5a6d27d58eba8c240ff24e21ce5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 16/38] fix: sort3 sorts the weights of its caller

The weights were taken by value, so findHeavyTriangles added two
arbitrary weights of the triangle instead of the two smallest.
---
 lib/coarsening/contraction_tests.h          | 2 +-
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 2ee43fb..973c10a 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,7 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight&
                       w3) {
         if (w1 < w2) {
             if (w2 < w3) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index be1ac6a..21ef283 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From 2919afcda39ea38c5cd09660b7d7166a2a6b454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 17/38] fix: parallel edge placement no longer updates a shared
 counter without synchronisation

---
 lib/data_structure/graph_access.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26f0875..26479a8 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -112,8 +112,7 @@ class basicGraph {
         m_edges[e_for] = Edge(target, wgt);
         m_edges[e_rev] = Edge(source, wgt);
 
-        e = e + 2;
-        return e;
+        return e_for;
     }
 
     EdgeID new_edge(NodeID source, NodeID target) {
-- 
2.43.0


From 1c5b4f454544401add965cc66dd3c364869f5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 18/38] fix: size the per-thread arrays of weighted sampling by
 the threads of the region

---
 lib/parallel/coarsening/sparsify.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..b6341ad 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,9 +53,9 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        NodeID n_reduce = 0;
         timer t;
-        size_t num_threads = omp_get_num_threads();
+        size_t num_threads = 1;
         std::vector<std::vector<EdgeWeight> > prefixsum;
 
         std::vector<EdgeWeight> processor_prefixes;
@@ -63,8 +63,15 @@ class sparsify {
 #pragma omp parallel
         {
             if (!omp_get_thread_num()) {
+                num_threads = omp_get_num_threads();
                 prefixsum.resize(num_threads);
                 processor_prefixes.resize(num_threads);
+                double factor = configuration::getConfig()->contraction_factor;
+                n_reduce = std::min(static_cast<NodeID>(
+                                        static_cast<double>(
+                                            G->number_of_nodes()) * factor),
+                                    G->number_of_nodes() - 2);
+                n_reduce /= num_threads;
             }
 #pragma omp barrier
 
@@ -98,14 +105,8 @@ class sparsify {
                 prefixsum[m / per_thread][m % per_thread] += my_prefix;
             }
 
-            double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
-                                    static_cast<double>(G->number_of_nodes())
-                                    * factor),
-                                G->number_of_nodes() - 2);
             size_t contracted = 0;
             std::mt19937_64 m_mt(configuration::getConfig()->seed);
-            n_reduce /= num_threads;
 
 #pragma omp barrier
             while (contracted < n_reduce) {
-- 
2.43.0


From a592e727d06d43e93b6ff53997e2e8b33423d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 19/38] fix: parallel union-find links roots in a fixed order,
 concurrent links lost unions

---
 lib/parallel/data_structure/union_find.h | 36 +++++-------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..4915b29 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -22,18 +22,15 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
+    explicit union_find(unsigned n) : m_parent(n) {
         for (unsigned i = 0; i < m_parent.size(); i++) {
             m_parent[i] = i;
-            m_rank[i] = 0;
         }
     }
 
     union_find(const union_find& uf) = default;
 
     inline bool Union(unsigned lhs, unsigned rhs) {
-        unsigned r_lhs, r_rhs;
-
         while (true) {
             lhs = Find(lhs);
             rhs = Find(rhs);
@@ -42,22 +39,16 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
-
-            if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
+            // roots are linked in order of their index. This order never
+            // changes, so that concurrent links can not form a cycle
+            if (lhs > rhs) {
                 std::swap(lhs, rhs);
-                std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, rhs))
                 break;
         }
 
-        if (r_lhs == r_rhs) {
-            UpdateRoot(rhs, r_rhs, rhs, r_rhs + 1);
-        }
-
         return true;
     }
 
@@ -97,22 +88,9 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
-
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
-
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    inline bool UpdateRoot(unsigned x, unsigned y) {
+        return __sync_bool_compare_and_swap(&m_parent[x], x, y);
     }
 
     std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
 };
-- 
2.43.0


From 1a939815cd5756789bade46d7e3ae4d005063047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 20/38] fix: build_from_metis frees the graph object it
 replaces

---
 lib/data_structure/graph_access.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26479a8..625c760 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -709,6 +709,7 @@ inline int* graph_access::UNSAFE_metis_style_adjwgt_array() {
 }
 
 inline int graph_access::build_from_metis(int n, int* xadj, int* adjncy) {
+    delete graphref;
     graphref = new basicGraph();
     start_construction(n, xadj[n]);
 
@@ -730,6 +731,7 @@ inline int graph_access::build_from_metis(int n, int* xadj, int* adjncy) {
 inline int graph_access::build_from_metis_weighted(int n, int* xadj,
                                                    int* adjncy, int* vwgt,
                                                    int* adjwgt) {
+    delete graphref;
     graphref = new basicGraph();
     start_construction(n, xadj[n]);
 
-- 
2.43.0


From c6a8cf217c299be003a5383665569ed160393437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 21/38] fix: unit flow works on the caller's graph instead of
 keeping a pointer to its own parameter

---
 lib/algorithms/flow/unit_flow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/unit_flow.h b/lib/algorithms/flow/unit_flow.h
index 36e55ab..b1727c7 100644
--- a/lib/algorithms/flow/unit_flow.h
+++ b/lib/algorithms/flow/unit_flow.h
@@ -29,7 +29,7 @@ class unit_flow {
     unit_flow() { }
     virtual ~unit_flow() { }
 
-    void init(flow_graph fg, const std::vector<EdgeWeight>& delta_src,
+    void init(flow_graph& fg, const std::vector<EdgeWeight>& delta_src,
               EdgeWeight unit_cap, NodeID max_height, FlowType w) {
         m_f.resize(fg.number_of_nodes());
         m_fg = &fg;
-- 
2.43.0


From 2a2395d2fd88cbfcbbe5228f7d4f00869cf4b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 22/38] fix: new_node starts with the new vertex in its set,
 not with last_node copies of 0

---
 lib/data_structure/mutable_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a03fc0c..19da8c2 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -96,7 +96,7 @@ class mutable_graph {
 
     NodeID new_node() {
         if (last_node == vertices.size()) {
-            contained_in_this.emplace_back(last_node);
+            contained_in_this.emplace_back(1, last_node);
             current_position.emplace_back();
             current_position[last_node] = vertices.size();
             vertices.emplace_back();
-- 
2.43.0


From b4f6dbaf86969e271d698f09ae928eeb3e6a8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 23/38] fix: deleteVertex drops the vertex set of the removed
 slot

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 19da8c2..72b5fc2 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -406,6 +406,7 @@ class mutable_graph {
         weighted_degree.pop_back();
         partition_index.pop_back();
         node_in_cut.pop_back();
+        contained_in_this.pop_back();
     }
 
     // Contraction methods
-- 
2.43.0


From f04f8a8e668ee990123011705ce9159076353ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 24/38] fix: contraction into the last vertex does not read the
 list that was just removed

---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 72b5fc2..be46c28 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -506,9 +506,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no other vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -556,9 +559,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no other vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -645,9 +651,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no other vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 2a7c1ac9b15ab5b0660f178b3dbf847783720969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 25/38] fix: keep the smaller cut when the remaining graph has
 no lighter one

findAllMincuts replaced the cut value by the minimum cut of the remaining
graph. Pendant vertices whose edge is a minimum cut are contracted before, so
the remaining graph can have only heavier cuts and the value was too high
(cycle of 300 unit edges with one pendant vertex: 2 instead of 1). When the
remaining graph has a lighter cut, the guaranteed edges found for the heavier
one are no longer cactus edges.
---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index d9e9094..e647d49 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -164,8 +164,16 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        // a cut can be hidden in graphs.back(), but it does not replace a
+        // lighter one whose edge is contracted already
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight hidden_cut = noi.perform_minimum_cut(graphs.back());
+            if (hidden_cut < mincut) {
+                mincut = hidden_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
-- 
2.43.0


From 9737fe3a8eb7c1657b7207f634fe9c035c6bc87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:08 +0000
Subject: [PATCH 26/38] fix: drop guaranteed cactus edges when a lighter cut is
 found afterwards

The parallel cactus algorithm clears guaranteed_edges whenever the cut value
improves in its loop, but not when the remaining graph turns out to hold a
lighter cut: the cactus then contained an edge that is not a minimum cut.
---
 lib/parallel/algorithm/parallel_cactus.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 73ecbe4..611093f 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -191,8 +191,14 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight hidden_cut =
+                mc.perform_minimum_cut(graphs.back(), true);
+            if (hidden_cut < mincut) {
+                // edges guaranteed for the heavier cut are not cactus edges
+                mincut = hidden_cut;
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From cd3e00fd42b8605d25896f6875a0d46356008b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 27/38] fix: save the cut that VieCut returns when the exact
 solver improves it

The exact solver marks its cut in the coarsest graph only, so with more than
10000 vertices the saved partition was that of the heavier cut found while
coarsening (two circulant graphs of 8000 vertices joined by an edge: value 1,
saved cut of weight 4).
---
 lib/algorithms/global_mincut/minimum_cut_helpers.h | 14 ++++++++++++++
 lib/algorithms/global_mincut/viecut.h              |  6 +++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..180164d 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -85,6 +85,20 @@ class minimum_cut_helpers {
         }
     }
 
+    // use the cut that is marked in the coarsest graph
+    static void projectCut(const std::vector<GraphPtr>& graphs) {
+        if (configuration::getConfig()->save_cut) {
+            for (NodeID idx : graphs[0]->nodes()) {
+                NodeID coarseID = idx;
+                for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                    coarseID = graphs[lv]->getPartitionIndex(coarseID);
+                }
+                graphs[0]->setNodeInCut(
+                    idx, graphs.back()->getNodeInCut(coarseID));
+            }
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..ecc1236 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -106,7 +106,11 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight exact_cut = noi.perform_minimum_cut(graphs.back(), true);
+            if (exact_cut < cut) {
+                cut = exact_cut;
+                minimum_cut_helpers<GraphPtr>::projectCut(graphs);
+            }
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From 3da15d5746aa90b4ed4a8b00c58d11f0d07955c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 28/38] fix: pr and matula keep the input graph

Without copy, a mutable_graph is contracted in place: all levels of the
hierarchy were the same object, the caller's graph was reduced to a vertex or
two (so that a second iteration returned 0) and the saved cut was lost (two
cliques of 20 vertices joined by an edge: saved cut of weight 0).
---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..856eea0 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,12 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 657a02a5152b212e5999500e3909889295f0bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 29/38] fix: map the cut of the first Karger-Stein recursion
 through its own contraction

The second recursive call overwrites the partition indices of the common
graph, so a better cut found by the first one was mapped back through the
wrong contraction and the saved cut was not the cut found.
---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 9e16328..a1639e1 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -198,14 +198,23 @@ class ks_minimum_cut : public minimum_cut {
 
         if (graphs.back()->number_of_nodes() > 50) {
             auto w1 = recurse(current_position, iteration);
+            std::vector<PartitionID> w1_cut;
+            if (configuration::getConfig()->save_cut) {
+                // the other recursion overwrites the partition indices
+                for (NodeID n : G2->nodes()) {
+                    NodeID ctr = G2->getPartitionIndex(n);
+                    w1_cut.emplace_back(graphs[w1.second]->getNodeInCut(ctr));
+                }
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
             if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
                 for (NodeID n : G2->nodes()) {
                     NodeID ctr = G2->getPartitionIndex(n);
-                    PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
+                    PartitionID pid = w1.first < w2.first
+                                      ? w1_cut[n]
+                                      : graphs[w2.second]->getNodeInCut(ctr);
                     G2->setNodeInCut(n, pid);
                 }
             }
-- 
2.43.0


From df0d3fbb055268ed32b6a22b6641b3383af78c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:20 +0000
Subject: [PATCH 30/38] fix: the cactus algorithms save a cut of the value they
 return

The sequential algorithm replaced the cut marked by VieCut by a vertex of
minimum degree (two cliques joined by an edge: value 1, saved cut of weight
n - 1), and a lighter cut found in the remaining graph was not marked in the
input graph.
---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 5 +++--
 lib/parallel/algorithm/parallel_cactus.h            | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index e647d49..b445297 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -79,15 +79,15 @@ class cactus_mincut : public minimum_cut {
         if (known_mincut == UNDEFINED_EDGE) {
             viecut<GraphPtr> vc;
             mincut = vc.perform_minimum_cut(graphs.back());
+            minimum_cut_helpers<GraphPtr>::projectCut(graphs);
         } else {
             mincut = known_mincut;
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
         }
         noi_minimum_cut<GraphPtr> noi;
         std::vector<std::vector<std::pair<NodeID, NodeID> > > guaranteed_edges;
         std::vector<size_t> ge_ids;
 
-        minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
-
         NodeID previous_size = UNDEFINED_NODE;
         while (graphs.back()->number_of_nodes() * 1.01 < previous_size) {
             previous_size = graphs.back()->number_of_nodes();
@@ -170,6 +170,7 @@ class cactus_mincut : public minimum_cut {
             EdgeWeight hidden_cut = noi.perform_minimum_cut(graphs.back());
             if (hidden_cut < mincut) {
                 mincut = hidden_cut;
+                minimum_cut_helpers<GraphPtr>::projectCut(graphs);
                 guaranteed_edges.clear();
                 ge_ids.clear();
             }
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 611093f..6e7f220 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -196,6 +196,7 @@ class parallel_cactus : public minimum_cut {
             if (hidden_cut < mincut) {
                 // edges guaranteed for the heavier cut are not cactus edges
                 mincut = hidden_cut;
+                minimum_cut_helpers<GraphPtr>::projectCut(graphs);
                 guaranteed_edges.clear();
                 ge_ids.clear();
             }
-- 
2.43.0


From 36c31839b180380f6f1102c0c4a45864253c0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 31/38] fix: mincut_contract uses the contraction factor it is
 given

The option was stored in a local variable that only the result line read: it
had no effect on the contraction and was read without a value when the option
was not given.
---
 app/mincut_contract.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 1b118ec..ed5df64 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -43,7 +43,6 @@ int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
 
     int iter = 1;
-    double contraction_factor;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
@@ -63,7 +62,8 @@ int main(int argn, char** argv) {
     cmdl.add_string('q', "pq", configuration::getConfig()->pq,
                     "name of priority queue implementation");
     cmdl.add_int('i', "iter", iter, "number of iterations");
-    cmdl.add_double('c', "contraction factor", contraction_factor,
+    cmdl.add_double('c', "contraction factor",
+                    configuration::getConfig()->contraction_factor,
                     "contract until only 1 - factor of vertices are left");
     cmdl.add_bool('s', "save_cut", configuration::getConfig()->save_cut,
                   "compute and store minimum cut");
@@ -129,7 +129,8 @@ int main(int argn, char** argv) {
 
             double time = t.elapsed();
             std::cout << "RESULT source=taa algo=contract"
-                      << static_cast<int>(100) * contraction_factor
+                      << static_cast<int>(100)
+                * configuration::getConfig()->contraction_factor
                       << " graph="
                       << configuration::getConfig()->graph_filename
                       << " time=" << time
-- 
2.43.0


From 9c07cbeb2d6c9a4c65165b48196209f96bc66a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 32/38] fix: mincut_contract writes the cut found in the
 contracted graph

The cut is marked in the contracted graph; the partition written was that of
the input graph, in which no vertex was ever marked.
---
 app/mincut_contract.cpp            | 4 ++++
 lib/parallel/coarsening/sparsify.h | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index ed5df64..c20cc6b 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -122,6 +122,10 @@ int main(int argn, char** argv) {
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
+                for (NodeID n : G->nodes()) {
+                    NodeID coarse_id = G->getPartitionIndex(n);
+                    G->setNodeInCut(n, G2->getNodeInCut(coarse_id));
+                }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
                                    + ".cut");
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index b6341ad..3d70664 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -273,6 +273,12 @@ class sparsify {
         auto [map, rev_map] = createMappings(G_in, &uf);
         std::vector<std::vector<NodeID> > rm(rev_map);
 
+        if (configuration::getConfig()->save_cut) {
+            for (NodeID n : G_in->nodes()) {
+                G_in->setPartitionIndex(n, map[n]);
+            }
+        }
+
         graphAccessPtr G2 =
             contraction::contractGraph(G_in, map, rm);
 
-- 
2.43.0


From 7da88b2990257486e5102fb23507207018155084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:33 +0000
Subject: [PATCH 33/38] fix: findTrivialCuts keeps the partition index of the
 vertices it moves

---
 lib/coarsening/contract_graph.h          | 3 +++
 lib/parallel/coarsening/contract_graph.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index ff311e4..74281e8 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -122,6 +122,9 @@ class contraction {
                     reverse_mapping.push_back({ bestNode });
                     LOG << reverse_mapping.size() << " size";
                     mapping[bestNode] = reverse_mapping.size() - 1;
+                    if (configuration::getConfig()->save_cut) {
+                        G->setPartitionIndex(bestNode, mapping[bestNode]);
+                    }
                     p--;
                 }
             }
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index d39506a..99d376e 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -110,6 +110,9 @@ class contraction {
                     VIECUT_ASSERT_LT(bestNode, G->number_of_nodes());
                     rev_mapping.push_back({ bestNode });
                     mapping[bestNode] = rev_mapping.size() - 1;
+                    if (configuration::getConfig()->save_cut) {
+                        G->setPartitionIndex(bestNode, mapping[bestNode]);
+                    }
                 }
             }
         }
-- 
2.43.0


From 54efacf0250abc1e0cdaad5328a7df96913f7056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:26 +0000
Subject: [PATCH 34/38] fix: from_graph_access counts the weight of parallel
 edges only once

---
 lib/data_structure/mutable_graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index be46c28..bb4571c 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -816,6 +816,10 @@ class mutable_graph {
                 if (last_incident[t] == n) {
                     // double edge
                     // LOG1 << "double edge";
+                    if (t < n) {
+                        // already added when edges of t were copied
+                        continue;
+                    }
 
                     for (EdgeID e2 : m_G->edges_of(n)) {
                         if (m_G->getEdgeTarget(n, e2) == t) {
-- 
2.43.0


From 4aac9c915ad4f2791c03eb0abc84413cfa40e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:29 +0000
Subject: [PATCH 35/38] fix: sparse contraction into a single block read past
 the end of the block sizes

---
 lib/parallel/coarsening/contract_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 99d376e..6cbbd85 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -305,7 +305,7 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (num_nodes > 1 && G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 828c5d1e54ba6528bc7447515c3b773c3cf94879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:44 +0000
Subject: [PATCH 36/38] fix: self-loops in weighted graph files take their
 weight with them

---
 lib/io/graph_io.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..66ebad1 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -191,6 +191,11 @@ class graph_io {
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
                 // check for self-loops
                 if (target - 1 == node) {
                     LOG0 << "The graph file contains self-loops. "
@@ -199,10 +204,6 @@ class graph_io {
                     continue;
                 }
 
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
                 edge_counter++;
                 G->new_edge(node, target - 1, edge_weight);
             }
-- 
2.43.0


From 4f79d693dda591977b01691664b0f180c2f72cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:44 +0000
Subject: [PATCH 37/38] fix: readVector skips comment lines and keeps a last
 line without newline

---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 66ebad1..f700c4b 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -345,15 +345,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From 31ad0d32a930e515db74b37a1c05b4208d0d1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:44 +0000
Subject: [PATCH 38/38] fix: an edge list that cannot be opened is not read as
 an empty graph

---
 lib/io/graph_io.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index f700c4b..9026093 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -45,6 +45,10 @@ class graph_io {
         std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
         std::string line;
         std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
         std::getline(instream, line);
         size_t line_ptr = 2;
         NodeID numV = fast_atoi(line, &line_ptr);
@@ -71,6 +75,10 @@ class graph_io {
         std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
         std::string line;
         std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
         NodeID numVtxs = 0;
 
         while (std::getline(instream, line)) {
-- 
2.43.0

