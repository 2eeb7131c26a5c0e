From 21e6804e1e2a2685b8216a591557cd803a67bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:08 +0000
Subject: [PATCH 01/21] fix: ThtsPool join could wait forever when the time
 limit passed between two work_left checks

---
 include/thts.h |  3 +++
 src/thts.cpp   | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..390e993 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -29,6 +29,8 @@ namespace thts {
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
      *          A condition variable used to coordinate when workers are working.
+     *      work_done_cv: 
+     *          A condition variable used by workers to tell threads in 'join' that they found no work left.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any work_done_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..6fe1843 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -29,6 +29,7 @@ namespace thts {
         shared_ptr<ThtsLogger> logger) :
             workers(num_threads),
             work_left_cv(),
+            work_done_cv(),
             work_left_lock(),
             logging_lock(),
             thread_pool_alive(true),
@@ -287,7 +288,8 @@ namespace thts {
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
-     *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     *      - notify work_done_cv to signal any threads waiting on workers completing (every time that no work was found,
+     *          as the time limit may pass between any two checks)
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -304,10 +306,8 @@ namespace thts {
         while (thread_pool_alive) {
             num_threads_working--;
 
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -328,7 +328,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            work_done_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 0904319ecd83a0a3384c2f359f413796d827c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:43 +0000
Subject: [PATCH 02/21] fix: ThtsPool::set_new_env accepted a new problem while
 trials were still in progress

---
 src/thts.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index 6fe1843..9455be8 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -38,7 +38,7 @@ namespace thts {
             start_time(std::chrono::system_clock::now()),
             max_run_time(0.0),
             trials_remaining(0),
-            num_threads_working(num_threads),
+            num_threads_working(0),
             trials_completed(0),
             logger(logger),
             thts_manager(thts_manager),
@@ -79,7 +79,8 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
-        if (work_left()) {
+        lock_guard<mutex> lg(work_left_lock);
+        if (work_left() || num_threads_working > 0) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
         thts_manager = new_thts_manager;
@@ -286,7 +287,6 @@ namespace thts {
      * The worker thread function.
      * 
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
-     * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
      *      - notify work_done_cv to signal any threads waiting on workers completing (every time that no work was found,
      *          as the time limit may pass between any two checks)
@@ -297,6 +297,7 @@ namespace thts {
      *      - decrement trials remaining to indicate we're going to run a trial
      *      - increment num_threads_working to indicate we're starting some work
      *      - run trial
+     *      - decrement num_threads_working to indicate that the trial/unit of work has been completed
      * 
      * A lock_guard is used to make sure that the work_left_lock is locked throughout the routine, except while waiting 
      * on work_left_cv, and when unlocked around running a trial.
@@ -304,8 +305,6 @@ namespace thts {
     void ThtsPool::worker_fn() {
         lock_guard<mutex> lg(work_left_lock);
         while (thread_pool_alive) {
-            num_threads_working--;
-
             while (!work_left()) {
                 work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
@@ -319,6 +318,7 @@ namespace thts {
             work_left_lock.unlock();
             run_thts_trial(trials_remaining_copy);
             work_left_lock.lock();
+            num_threads_working--;
         }
     }
 
-- 
2.43.0


From dc2a87bc49541cfeab471cf05944db68c2eeefda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:54 +0000
Subject: [PATCH 03/21] fix: sample_from_distribution failed on valid
 distributions (zero-mass entries, rounding near 1, unnormalised totals below
 1)

---
 src/helper_templates.cc | 76 ++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..95ade83 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -51,61 +51,51 @@ namespace thts::helper {
     /**
      * Sampling from distribution
      * 
-     * Implementation includes useful (probabilistic) error checking on distributions (which should only occur when 
-     * normalised=true):
-     * - Firstly, if probability masses reach a sum of 1.0 or greater too quickly then we throw an exception. Consider 
-     *      if a distribution {s1: 1.0, s2: 0.5, s3: 0.5} is passed in. This exception will often catch these cases, 
-     *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
-     *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
-     * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
-     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
+     * Implementation includes error checking on distributions that are declared to be normalised:
+     * - Firstly, if the probability masses sum to more than 1.0 (up to rounding) then we throw an exception.
+     * - Secondly, if we get to the end of the routine without returning a sampled object, and the probability masses 
+     *      sum to less than 1.0 (up to rounding), then we throw an exception. This exception is thrown with probability 
+     *      (1.0-sum_weights).
+     * 
+     * Keys with no mass are never returned. If rounding errors mean that the random value isn't covered by the running 
+     * mass, then the last key with any mass is returned.
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
-        double sum_weights = 1.0;
-        if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
-        }
-        
-        int i = 0;
-        int distr_size = distribution.size();
         double rand_val = rand_manager.get_rand_uniform();
-        double running_prob_mass = 0.0;
-
-        for (pair<T,double> pr : distribution) {
-            // update mass considered
-            running_prob_mass += pr.second / sum_weights;
-
-            // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
-            }
-            
-            // return if its time
-            if (rand_val < running_prob_mass) {
+        double sum_weights = 0.0;
+        for (pair<const T,double>& pr : distribution) {
+            sum_weights += pr.second;
+        }
+
+        if (normalised && sum_weights > 1.0 + EPS) {
+            stringstream error_msg_ss;
+            error_msg_ss 
+                << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+            throw runtime_error(error_msg_ss.str());
+        }
+
+        double target_mass = normalised ? rand_val : rand_val * sum_weights;
+        double running_mass = 0.0;
+        const T* last_key = nullptr;
+        for (pair<const T,double>& pr : distribution) {
+            if (pr.second <= 0.0) continue;
+            running_mass += pr.second;
+            last_key = &pr.first;
+            if (target_mass < running_mass) {
                 return pr.first;
             }
         }
 
+        if (last_key != nullptr && (!normalised || sum_weights >= 1.0 - EPS)) {
+            return *last_key;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
             << unordered_map_pretty_print_string(distribution);
-        double sum = 0.0;
-        for (pair<T,double> pr : distribution) { 
-            sum += pr.second;
-        }
-        cout << sum << endl;
         throw runtime_error(error_msg_ss.str());
     }
 
-- 
2.43.0


From 4474584f00c35d5925955252ccba05f0784dd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:36 +0000
Subject: [PATCH 04/21] fix: transposition table failed with bad_weak_ptr on
 entries of a discarded tree

---
 src/thts_chance_node.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..f4d01c6 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -116,11 +116,14 @@ namespace thts {
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
 
+        // N.B. the table holds weak pointers, so an entry may refer to a node that has been destroyed since
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            shared_ptr<ThtsDNode> child_node = iter->second.lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
-- 
2.43.0


From 8623adb1d8277e66a4c42675beeb32aca2d6357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:12 +0000
Subject: [PATCH 05/21] fix: data race on the transposition table with more
 than one table mutex

---
 include/thts_manager.h   |  3 +++
 src/thts_chance_node.cpp | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..51bcf13 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -171,6 +171,8 @@ namespace thts {
      *      dmap_mutexes:
      *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
      *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *      dmap_table_lock:
+     *          A mutex protecting the dmap object itself (entries with different 'dmap_mutexes' share one map).
      */
     class ThtsManager : public RandManager {
         public:
@@ -185,6 +187,7 @@ namespace thts {
 
             DNodeTable dmap;
             std::vector<std::mutex> dmap_mutexes;
+            std::mutex dmap_table_lock;
 
             /**
              * Constructor. Initialises values directly other than random number generation.
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index f4d01c6..7846f55 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -93,6 +93,8 @@ namespace thts {
      * 
      * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
      * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * As ids guarded by different mutexes still live in the same map, every access to the map itself is additionally 
+     * protected by 'thts_manager->dmap_table_lock'.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -117,17 +119,21 @@ namespace thts {
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
 
         // N.B. the table holds weak pointers, so an entry may refer to a node that has been destroyed since
-        auto iter = dmap.find(dnode_id);
-        if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = iter->second.lock();
-            if (child_node != nullptr) {
-                children[observation] = child_node;
-                return child_node;
+        {
+            lock_guard<mutex> table_lg(thts_manager->dmap_table_lock);
+            auto iter = dmap.find(dnode_id);
+            if (iter != dmap.end()) {
+                shared_ptr<ThtsDNode> child_node = iter->second.lock();
+                if (child_node != nullptr) {
+                    children[observation] = child_node;
+                    return child_node;
+                }
             }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
         children[observation] = child_node;
+        lock_guard<mutex> table_lg(thts_manager->dmap_table_lock);
         dmap[dnode_id] = child_node;
         return child_node;
     }
-- 
2.43.0


From 6efb04e0e130d18b762d2771de6ec66db407530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:02 +0000
Subject: [PATCH 06/21] fix: deadlock between chance nodes sharing decision
 nodes (children were locked in map order)

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  6 ++++++
 src/thts_chance_node.cpp                    | 21 +++++++++++++++++++--
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..96316d1 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_child_nodes(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..22c30c3 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_child_nodes(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..53d9ffa 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -102,6 +102,12 @@ namespace thts {
              */
             void lock_all_children() const;
 
+            /**
+             * Locks all of the decision nodes in a children map, in an order that is safe when decision nodes are 
+             * shared between chance nodes.
+             */
+            static void lock_child_nodes(const DNodeChildMap& children);
+
             /**
              * Helper function to unlock all children nodes.
              */
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 7846f55..ea113ea 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,11 +4,13 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
@@ -61,8 +63,23 @@ namespace thts {
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
+        lock_child_nodes(children);
+    }
+
+    /**
+     * Locks all of the decision nodes in 'children'.
+     * 
+     * With a transposition table, decision nodes can be shared between chance nodes, so the locks need to be aquired 
+     * in an order that is the same for every chance node, otherwise workers can deadlock. We use the nodes addresses.
+     */
+    void ThtsCNode::lock_child_nodes(const DNodeChildMap& children) {
+        vector<ThtsDNode*> child_nodes;
+        for (const auto& observation_child_pair : children) {
+            child_nodes.push_back(observation_child_pair.second.get());
+        }
+        sort(child_nodes.begin(), child_nodes.end(), less<ThtsDNode*>());
+        for (ThtsDNode* child_node : child_nodes) {
+            child_node->lock();
         }
     }
 
-- 
2.43.0


From 79fb029d1eeeed61bf0d795f53af9c48ed863d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:39 +0000
Subject: [PATCH 07/21] fix: mean log prior weight in MentsDNode was the sum's
 last term (running mean index never advanced)

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 8d5e2ecff15f93519316f2bc2679d928da5d068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:56 +0000
Subject: [PATCH 08/21] fix: exploration probability of an unvisited node was
 NaN with epsilon zero (DENTS and EST entropies)

---
 src/algorithms/ments/ments_decision_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..441feaa 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,7 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 9ba1babc5ce957e943b5077895a8d20af01437a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:43 +0000
Subject: [PATCH 09/21] fix: DENTS never counted visits of leaf nodes for the
 entropy backup, so chance nodes weighted them as visited once

---
 include/algorithms/ments/dents/dents_decision_node.h | 8 ++++++++
 src/algorithms/ments/dents/dents_decision_node.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/algorithms/ments/dents/dents_decision_node.h b/include/algorithms/ments/dents/dents_decision_node.h
index 83aca30..4e51ba6 100644
--- a/include/algorithms/ments/dents/dents_decision_node.h
+++ b/include/algorithms/ments/dents/dents_decision_node.h
@@ -46,6 +46,14 @@ namespace thts {
 
             virtual ~DentsDNode() = default;
             
+            /**
+             * Visit calls dbmentsdnode's and entdnode's visit functions
+             * 
+             * Args:
+             *      ctx: A context provided to all thts functions throughout a trial to pass intermediate/transient info
+             */
+            virtual void visit(ThtsEnvContext& ctx);
+            
             /**
              * Helper to get the temperature that should be used for computing the soft value to use in ments functions.
              * I.e. The 'value_temp' refers to the temperature coefficient of entropy when computing (soft) values
diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..852d02f 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -27,6 +27,14 @@ namespace thts {
         backup_ent<DentsCNode>(children, action_distr, is_opponent());
     }
 
+    /**
+     * Call both dbments and ent visit functions
+     */
+    void DentsDNode::visit(ThtsEnvContext& ctx) {
+        DBMentsDNode::visit(ctx);
+        EntDNode::visit_ent(is_leaf());
+    }
+
     /**
      * Get decayed temp
      */
-- 
2.43.0


From 38b8b4aa64f0007893529bf38574e71fd50600bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:00 +0000
Subject: [PATCH 10/21] fix: CategoricalDistribution read and wrote outside its
 alias table after a change in the number of keys

---
 src/distributions/categorical_distribution.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..c3d6170 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -57,20 +57,14 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
-     * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
+     * (If distribution has changed in size (num outcomes), then reconstruct_alias_table will construct it from scratch)
     */
     template <typename T>
     void CategoricalDistribution<T>::update(shared_ptr<unordered_map<T,double>> new_distr) {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
-                reconstruct_alias_table(false);
-            } else {
-                alias_table.clear();
-                construct_alias_table();
-            }
+            reconstruct_alias_table();
         }
     }
     
@@ -122,6 +116,13 @@ namespace thts {
     */
     template <typename T>
     void CategoricalDistribution<T>::reconstruct_alias_table(bool just_constructed) {
+        // If the number of outcomes changed, then need to make the entries again
+        if (!just_constructed && alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         double sum_weights = 0.0;
         for (pair<const T,double>& kv_pair : *distr) {
             sum_weights += kv_pair.second;
-- 
2.43.0


From 1a41002a61764dfd469fec5d6a168b5b5af938c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 11/21] fix: MCEvaluator roll-outs never stopped at the maximum
 trial length

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..4b63294 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From 62787c95868260cb8b0582e5a4d4e5a231388eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:33 +0000
Subject: [PATCH 12/21] fix: MCEvaluator used the context of a roll-out after
 it was destroyed

---
 src/mc_eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 4b63294..7578b82 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,11 +87,11 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-            shared_ptr<const Action> action = thread_policy.get_action(state, context);
+            shared_ptr<const Action> action = thread_policy.get_action(state, *context);
             shared_ptr<const State> next_state = thts_env->sample_transition_distribution_itfc(
                 state, action, rand_manager);
             shared_ptr<const Observation> obsv = thts_env->sample_observation_distribution_itfc(
-- 
2.43.0


From 8410ddf87ae7764e97913fbdbdaf112a9c9b61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:50 +0000
Subject: [PATCH 13/21] fix: MCEvaluator::get_stddev_return returned the
 variance

---
 src/mc_eval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 7578b82..abffdbb 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -165,10 +165,10 @@ namespace thts {
     double MCEvaluator::get_stddev_return() {
         double mean = get_mean_return();
         double weight = 1.0 / (sampled_returns.size() - 1.0);
-        double stddev = 0.0;
+        double variance = 0.0;
         for (double val : sampled_returns) {
-            stddev += weight * pow(val - mean, 2.0);
+            variance += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(variance);
     }
 }
\ No newline at end of file
-- 
2.43.0


From d1b5ba62e599d6113e647aee3705059a938a3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:23 +0000
Subject: [PATCH 14/21] fix: loggers sliced their entries and wrote only the
 base columns

---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 11 +++++------
 5 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..0dfda69 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..dc1dea3 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -43,7 +43,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -77,7 +77,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -90,12 +90,11 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
-        first_entry.write_header_to_ostream(os);
+        entries[0]->write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From 866fdee733fa54525a59b6c91371a2a7b6859058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:38 +0000
Subject: [PATCH 15/21] fix: logger schedule was uninitialised and restarted
 inconsistently, logging every trial after the first run

---
 src/thts_logger.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index dc1dea3..1b3939f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,11 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(runtime_delta) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
@@ -36,6 +39,7 @@ namespace thts {
     
     void ThtsLogger::set_runtime_delta(double delta) {
         runtime_delta = chrono::duration<double>(delta);
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     int ThtsLogger::size() const {
@@ -50,8 +54,6 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -65,7 +67,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
-- 
2.43.0


From 021510d4f80e59b4fe1aff19aa4ab0ab98ed2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:06 +0000
Subject: [PATCH 16/21] fix: the logger's total run time lost or double counted
 earlier runs (time limits, repeated runs)

---
 include/thts_logger.h |  6 +++++-
 src/thts.cpp          | 13 +++++--------
 src/thts_logger.cpp   |  4 +++-
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index 0dfda69..0274031 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -56,6 +56,8 @@ namespace thts {
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
      *          The time at the start of the last run_trials call in ThtsPool
+     *      last_trial_time: 
+     *          The time that the last trial was completed at (or 'start_time' if none completed since then)
      *      trials_completed: 
      *          The number of trials completed (number of times 'trial_completed' called)
      *      trials_delta: 
@@ -73,6 +75,7 @@ namespace thts {
             std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
+            std::chrono::time_point<std::chrono::system_clock> last_trial_time;
 
             int trials_completed;
             int trials_delta;
@@ -147,7 +150,8 @@ namespace thts {
             virtual void log(std::shared_ptr<ThtsDNode> node);
 
             /**
-             * Call this when all trials have been run
+             * Call this when all trials have been run, to add the duration of the run (from 'start_time' to when its 
+             * last trial completed) to 'prior_runtime'
              */
             void update_prior_runtime();
 
diff --git a/src/thts.cpp b/src/thts.cpp
index 9455be8..7e252e5 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -261,9 +261,7 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node.
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
@@ -275,10 +273,6 @@ namespace thts {
                 lock_guard<mutex> root_node_lg(root_node->get_lock());
                 logger->log(root_node);
             }
-
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
         }
     }
 
@@ -343,7 +337,9 @@ namespace thts {
      * - if blocking, calls join to wait 
      * 
      * For logging we call the function that needs to be called at the start of a 'run_trials' call, so the logger 
-     * knows the start time. And if the logger is empty, it adds an origin point/entry.
+     * knows the start time. And if the logger is empty, it adds an origin point/entry. The duration of the previous run
+     * is added to the loggers prior runtime here, because a run stopped by its time limit doesn't have a last trial that 
+     * knows it was the last.
      * 
      * Args:
      *      max_trials: The maximum number of trials to run
@@ -356,6 +352,7 @@ namespace thts {
             if (logger->size() == 0) {
                 logger->add_origin_entry();
             }
+            logger->update_prior_runtime();
             logger->reset_start_time();
         }
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 1b3939f..091af5f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -54,6 +54,7 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
+        last_trial_time = start_time;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -63,6 +64,7 @@ namespace thts {
 
     void ThtsLogger::trial_completed() {
         trials_completed++;
+        last_trial_time = chrono::system_clock::now();
     }
     
     bool ThtsLogger::should_log() {
@@ -85,7 +87,7 @@ namespace thts {
     }
     
     void ThtsLogger::update_prior_runtime() {
-        chrono::duration<double> runtime = chrono::system_clock::now() - start_time;
+        chrono::duration<double> runtime = last_trial_time - start_time;
         prior_runtime += runtime;
     }
 
-- 
2.43.0


From 08410cbdb44317ee5bbd3e25dd9ddc312ce5ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:02 +0000
Subject: [PATCH 17/21] fix: printing a StringAction did not link (operator<<
 defined for another signature than declared)

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index 7af0801..f93000a 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -429,7 +429,7 @@ namespace std {
         return os;
     }
 
-    ostream& operator<<(ostream& os, const StringAction action) {
+    ostream& operator<<(ostream& os, const StringAction& action) {
         os << action.get_pretty_print_string();
         return os;
     }
-- 
2.43.0


From 006cf1885e019e4b101a1d77b6a61a09221fada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:52 +0000
Subject: [PATCH 18/21] fix: RENTS threw on nodes shared between trees rooted
 at different timesteps (context keys used the depth)

---
 src/algorithms/ments/rents/rents_decision_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/ments/rents/rents_decision_node.cpp b/src/algorithms/ments/rents/rents_decision_node.cpp
index 6cc4533..bc31988 100644
--- a/src/algorithms/ments/rents/rents_decision_node.cpp
+++ b/src/algorithms/ments/rents/rents_decision_node.cpp
@@ -25,12 +25,12 @@ namespace thts {
                 static_pointer_cast<const MentsCNode>(parent))
     {
         stringstream ss_n;
-        ss_n << "d_" << decision_depth;
+        ss_n << "d_" << decision_timestep;
         _node_distr_key = ss_n.str();
 
         if (decision_depth > 0) {
             stringstream ss_p;
-            ss_p << "d_" << decision_depth-1;
+            ss_p << "d_" << decision_timestep-1;
             _parent_distr_key = ss_p.str();
         }
     }
-- 
2.43.0


From e1a9a3c9aaab8c89c4e3835e77822146ed52c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:33 +0000
Subject: [PATCH 19/21] fix: total run time in the log never decreases from one
 run to the next

An entry is stamped when it is made, which can be after the trial was counted
(the entry waits for the root's lock), while the next run's prior_runtime only
counted up to the last completed trial.
---
 include/thts_logger.h | 2 +-
 src/thts_logger.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index 0274031..c4d9df3 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -151,7 +151,7 @@ namespace thts {
 
             /**
              * Call this when all trials have been run, to add the duration of the run (from 'start_time' to when its 
-             * last trial completed) to 'prior_runtime'
+             * last trial completed, or was logged) to 'prior_runtime'
              */
             void update_prior_runtime();
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 091af5f..804cfea 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -89,6 +89,7 @@ namespace thts {
     void ThtsLogger::update_prior_runtime() {
         chrono::duration<double> runtime = last_trial_time - start_time;
         prior_runtime += runtime;
+        if (!entries.empty()) prior_runtime = max(prior_runtime, entries.back()->runtime);
     }
 
     void ThtsLogger::write_to_ostream(ostream& os) {
-- 
2.43.0


From 7bc146c6f4a771614d9b7884569a7cb071690dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:02 +0000
Subject: [PATCH 20/21] fix: printing the transposition table works when some
 of its nodes have been destroyed

---
 src/thts_types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_types.cpp b/src/thts_types.cpp
index f93000a..085925e 100644
--- a/src/thts_types.cpp
+++ b/src/thts_types.cpp
@@ -511,7 +511,7 @@ namespace std {
     ostream& operator<<(ostream& os, const DNodeTable& tbl) {
         unordered_map<DNodeIdTuple,shared_ptr<ThtsDNode>> shared_tbl_for_print;
         for (auto pr : tbl) {
-            shared_tbl_for_print.insert_or_assign(pr.first, shared_ptr<ThtsDNode>(pr.second));
+            shared_tbl_for_print.insert_or_assign(pr.first, pr.second.lock());
         }
         os << helper::unordered_map_pretty_print_string(shared_tbl_for_print);
         return os;
-- 
2.43.0


From f4705e57b997a55608523456920f45a94da72774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:11 +0000
Subject: [PATCH 21/21] fix: TENTS threw or updated the wrong action on nodes
 shared between trees rooted at different timesteps (context key used the
 depth)

---
 src/algorithms/ments/tents/tents_decision_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index ddb5703..d94aa36 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -37,7 +37,7 @@ namespace thts {
         }
 
         stringstream ss;
-        ss << decision_depth;
+        ss << decision_timestep;
         _selected_action_key = ss.str();
     }
 
@@ -159,7 +159,7 @@ namespace thts {
 
     /**
      * Calls the ments implementation of select action and stores the action in the context at 
-     * "{decision_depth}" -> selected_action
+     * "{decision_timestep}" -> selected_action
      */
     shared_ptr<const Action> TentsDNode::select_action(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = select_action_ments(ctx);
-- 
2.43.0

