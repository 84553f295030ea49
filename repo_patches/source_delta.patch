From 3ea3280073147a3f32e65a147bc828b47b487cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 01/96] fix: do not index one past the end when copying leaf
 vectors and category lists

---
 include/stochtree/tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index bbacd56..914825d 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -338,7 +338,7 @@ class Tree {
       // Return empty vector, to indicate the lack of leaf vector
       return std::vector<double>();
     }
-    return std::vector<double>(&leaf_vector_[offset_begin], &leaf_vector_[offset_end]);
+    return std::vector<double>(leaf_vector_.begin() + offset_begin, leaf_vector_.begin() + offset_end);
     // Use unsafe access here, since we may need to take the address of one past the last
     // element, to follow with the range semantic of std::vector<>.
   }
@@ -408,7 +408,7 @@ class Tree {
       // The node might be a numerical split
       return {};
     }
-    return std::vector<std::uint32_t>(&category_list_[offset_begin], &category_list_[offset_end]);
+    return std::vector<std::uint32_t>(category_list_.begin() + offset_begin, category_list_.begin() + offset_end);
     // Use unsafe access here, since we may need to take the address of one past the last
     // element, to follow with the range semantic of std::vector<>.
   }
-- 
2.43.0


From b2f20365689112cddf9adf7f7d375f0a64773b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 02/96] fix: keep the number of deleted nodes when a tree is
 read from JSON

---
 src/tree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.cpp b/src/tree.cpp
index 68ac632..688a33a 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -645,7 +645,6 @@ void Tree::from_json(const json& tree_json) {
   tree_json.at("num_deleted_nodes").get_to(this->num_deleted_nodes);
   tree_json.at("has_categorical_split").get_to(this->has_categorical_split_);
   tree_json.at("output_dimension").get_to(this->output_dimension_);
-  this->num_deleted_nodes = 0;
   
   // Unpack the array based fields
   JsonToTreeNodeVectors(tree_json, this);
-- 
2.43.0


From a181ab4f4dbdf2b77cf75295774a818b2dd4162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 03/96] fix: forget deleted nodes when a tree is reset or
 reinitialised

---
 src/tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree.cpp b/src/tree.cpp
index 688a33a..897ff90 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -310,6 +310,7 @@ void Tree::Reset() {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
 
   // Set bool / integer variables to default values
   num_nodes = 0;
@@ -343,6 +344,9 @@ void Tree::Init(std::int32_t output_dimension) {
   leaves_.clear();
   leaf_parents_.clear();
   internal_nodes_.clear();
+  deleted_nodes_.clear();
+
+  num_deleted_nodes = 0;
 
   // Set output dimension
   output_dimension_ = output_dimension;
-- 
2.43.0


From 123aaf3a96b781518c8e2002a9e0d4dcd066f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:32 +0000
Subject: [PATCH 04/96] fix: write in-place node predictions to the caller's
 vector

---
 include/stochtree/tree.h | 2 +-
 src/tree.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index 914825d..aa38e68 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -223,7 +223,7 @@ class Tree {
   /*! \brief Predict a tree based on node membership indices
    * TODO: generalize to vector leaves
    */
-  void InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices);
+  void InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices);
   std::vector<double> PredictFromNodes(std::vector<std::int32_t> node_indices, Eigen::MatrixXd& basis);
   double PredictFromNode(std::int32_t node_id);
diff --git a/src/tree.cpp b/src/tree.cpp
index 897ff90..8ba82f5 100644
--- a/src/tree.cpp
+++ b/src/tree.cpp
@@ -38,7 +38,7 @@ std::int32_t Tree::NumSplitNodes() const {
   return splits;
 }
 
-void Tree::InplacePredictFromNodes(std::vector<double> result, std::vector<std::int32_t> node_indices) {
+void Tree::InplacePredictFromNodes(std::vector<double>& result, std::vector<std::int32_t> node_indices) {
   if (result.size() != node_indices.size()) {
     Log::Fatal("Indices and result vector are different sizes");
   }
-- 
2.43.0


From 1630cc8cc83304af8e75051cb6a3a11a9d1310e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 05/96] fix: find a node's covariate range correctly for
 negative and falling values

---
 include/stochtree/tree_sampler.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e9ef65d..4695edf 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -22,7 +22,7 @@ namespace StochTree {
 
 static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset, int tree_num, int leaf_split, int feature_split, double& var_min, double& var_max) {
   var_min = std::numeric_limits<double>::max();
-  var_max = std::numeric_limits<double>::min();
+  var_max = std::numeric_limits<double>::lowest();
   double feature_value;
   
   std::vector<data_size_t>::iterator node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
@@ -33,7 +33,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
     feature_value = dataset.CovariateValue(idx, feature_split);
     if (feature_value < var_min) {
       var_min = feature_value;
-    } else if (feature_value > var_max) {
+    }
+    if (feature_value > var_max) {
       var_max = feature_value;
     }
   }
@@ -52,9 +53,9 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::min();
+    var_max_left = std::numeric_limits<double>::lowest();
     var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::min();
+    var_max_right = std::numeric_limits<double>::lowest();
     var_min_right = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -64,13 +65,15 @@ static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTrac
       if (split.SplitTrue(split_feature_value)) {
         if (var_max_left < feature_value) {
           var_max_left = feature_value;
-        } else if (var_min_left > feature_value) {
+        }
+        if (var_min_left > feature_value) {
           var_min_left = feature_value;
         }
       } else {
         if (var_max_right < feature_value) {
           var_max_right = feature_value;
-        } else if (var_min_right > feature_value) {
+        }
+        if (var_min_right > feature_value) {
           var_min_right = feature_value;
         }
       }
@@ -92,7 +95,7 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
   for (int j = 0; j < p; j++) {
     auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
     auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::min();
+    var_max = std::numeric_limits<double>::lowest();
     var_min = std::numeric_limits<double>::max();
 
     for (auto i = node_begin_iter; i != node_end_iter; i++) {
@@ -100,7 +103,8 @@ static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracke
       feature_value = dataset.CovariateValue(idx, j);
       if (var_max < feature_value) {
         var_max = feature_value;
-      } else if (var_min > feature_value) {
+      }
+      if (var_min > feature_value) {
         var_min = feature_value;
       }
     }
-- 
2.43.0


From 6eedaf0bb49a16779d3af779ce26d437bcdeb70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 06/96] fix: keep the minimum leaf size in Metropolis grow
 moves and allow unsplittable data

---
 include/stochtree/tree_sampler.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 4695edf..43bc84b 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -296,7 +296,8 @@ class MCMCForestSampler {
       step_probs = {1.0, 0.0};
       prob_grow = 1.0;
     } else {
-      Log::Fatal("In this tree, neither grow nor prune is possible");
+      // Neither move is available (i.e. too few observations to split the root), so the tree stays as it is
+      return;
     }
     std::discrete_distribution<> step_dist(step_probs.begin(), step_probs.end());
 
@@ -355,6 +356,11 @@ class MCMCForestSampler {
     double no_split_log_marginal_likelihood = std::get<1>(split_eval);
     int32_t left_n = std::get<2>(split_eval);
     int32_t right_n = std::get<3>(split_eval);
+
+    // Reject any split that leaves either of the new leaves below the minimum leaf size
+    if ((left_n < tree_prior.GetMinSamplesLeaf()) || (right_n < tree_prior.GetMinSamplesLeaf())) {
+      return;
+    }
     
     // Determine probability of growing the split node and its two new left and right nodes
     double pg = tree_prior.GetAlpha() * std::pow(1+leaf_depth, -tree_prior.GetBeta());
-- 
2.43.0


From 85f0da3d763937e2aacfe8953d54b96eba434f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 07/96] fix: make the Metropolis acceptance ratio match the
 moves it proposes

---
 include/stochtree/tree_sampler.h | 128 +++++++------------------------
 1 file changed, 27 insertions(+), 101 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 43bc84b..62fa893 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -40,79 +40,8 @@ static inline void VarSplitRange(ForestTracker& tracker, ForestDataset& dataset,
   }
 }
 
-static inline bool NodesNonConstantAfterSplit(ForestDataset& dataset, ForestTracker& tracker, TreeSplit& split, int tree_num, int leaf_split, int feature_split) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double split_feature_value;
-  double var_max_left;
-  double var_min_left;
-  double var_max_right;
-  double var_min_right;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, leaf_split);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, leaf_split);
-    var_max_left = std::numeric_limits<double>::lowest();
-    var_min_left = std::numeric_limits<double>::max();
-    var_max_right = std::numeric_limits<double>::lowest();
-    var_min_right = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      split_feature_value = dataset.CovariateValue(idx, feature_split);
-      feature_value = dataset.CovariateValue(idx, j);
-      if (split.SplitTrue(split_feature_value)) {
-        if (var_max_left < feature_value) {
-          var_max_left = feature_value;
-        }
-        if (var_min_left > feature_value) {
-          var_min_left = feature_value;
-        }
-      } else {
-        if (var_max_right < feature_value) {
-          var_max_right = feature_value;
-        }
-        if (var_min_right > feature_value) {
-          var_min_right = feature_value;
-        }
-      }
-    }
-    if ((var_max_left > var_min_left) && (var_max_right > var_min_right)) {
-      return true;
-    }
-  }
-  return false;
-}
-
-static inline bool NodeNonConstant(ForestDataset& dataset, ForestTracker& tracker, int tree_num, int node_id) {
-  int p = dataset.GetCovariates().cols();
-  data_size_t idx;
-  double feature_value;
-  double var_max;
-  double var_min;
-  
-  for (int j = 0; j < p; j++) {
-    auto node_begin_iter = tracker.UnsortedNodeBeginIterator(tree_num, node_id);
-    auto node_end_iter = tracker.UnsortedNodeEndIterator(tree_num, node_id);
-    var_max = std::numeric_limits<double>::lowest();
-    var_min = std::numeric_limits<double>::max();
-
-    for (auto i = node_begin_iter; i != node_end_iter; i++) {
-      auto idx = *i;
-      feature_value = dataset.CovariateValue(idx, j);
-      if (var_max < feature_value) {
-        var_max = feature_value;
-      }
-      if (var_min > feature_value) {
-        var_min = feature_value;
-      }
-    }
-    if (var_max > var_min) {
-      return true;
-    }
-  }
-  return false;
+static inline bool LeafSplitPossible(ForestTracker& tracker, TreePrior& tree_prior, int tree_num, int leaf_node) {
+  return tracker.UnsortedNodeSize(tree_num, leaf_node) >= 2 * tree_prior.GetMinSamplesLeaf();
 }
 
 static inline void AddSplitToModel(ForestTracker& tracker, ForestDataset& dataset, TreePrior& tree_prior, TreeSplit& split, std::mt19937& gen, Tree* tree, int tree_num, int leaf_node, int feature_split, bool keep_sorted = false) {
@@ -271,7 +200,7 @@ class MCMCForestSampler {
     bool grow_possible = false;
     std::vector<int> leaves = tree->GetLeaves();
     for (auto& leaf: leaves) {
-      if (tracker.UnsortedNodeSize(tree_num, leaf) > 2 * tree_prior.GetMinSamplesLeaf()) {
+      if (LeafSplitPossible(tracker, tree_prior, tree_num, leaf)) {
         grow_possible = true;
         break;
       }
@@ -367,23 +296,26 @@ class MCMCForestSampler {
     double pgl = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
     double pgr = tree_prior.GetAlpha() * std::pow(1+leaf_depth+1, -tree_prior.GetBeta());
 
-    // Determine whether a "grow" move is possible from the newly formed tree
-    // in order to compute the probability of choosing "prune" from the new tree
-    // (which is always possible by construction)
-    bool non_constant = NodesNonConstantAfterSplit(dataset, tracker, split, tree_num, leaf_chosen, var_chosen);
-    bool min_samples_left_check = left_n >= 2*tree_prior.GetMinSamplesLeaf();
-    bool min_samples_right_check = right_n >= 2*tree_prior.GetMinSamplesLeaf();
-    double prob_prune_new;
-    if (non_constant && (min_samples_left_check || min_samples_right_check)) {
-      prob_prune_new = 0.5;
-    } else {
-      prob_prune_new = 1.0;
+    // Determine whether a "grow" move is possible from the newly formed tree (either in one of the new 
+    // leaves or in one of the existing ones) in order to compute the probability of choosing "prune" from 
+    // the new tree (which is always possible by construction)
+    bool grow_possible_new = (left_n >= 2*tree_prior.GetMinSamplesLeaf()) || (right_n >= 2*tree_prior.GetMinSamplesLeaf());
+    for (auto& leaf: leaves) {
+      if ((leaf != leaf_chosen) && LeafSplitPossible(tracker, tree_prior, tree_num, leaf)) {
+        grow_possible_new = true;
+        break;
+      }
     }
+    double prob_prune_new = grow_possible_new ? 0.5 : 1.0;
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-    int num_leaf_parents = tree->NumLeafParents();
+    // (if the parent of the chosen leaf is a leaf parent, it ceases to be one after the split)
+    int num_leaf_parents_new = tree->NumLeafParents() + 1;
+    if (!tree->IsRoot(leaf_chosen) && tree->IsLeafParent(tree->Parent(leaf_chosen))) {
+      num_leaf_parents_new -= 1;
+    }
     double p_leaf = 1/static_cast<double>(num_leaves);
-    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents+1);
+    double p_leaf_parent = 1/static_cast<double>(num_leaf_parents_new);
 
     // Compute the final MH ratio
     double log_mh_ratio = (
@@ -437,23 +369,17 @@ class MCMCForestSampler {
     // Determine whether a "prune" move is possible from the new tree,
     // in order to compute the probability of choosing "grow" from the new tree
     // (which is always possible by construction)
-    bool non_root_tree = tree->NumNodes() > 1;
-    double prob_grow_new;
-    if (non_root_tree) {
-      prob_grow_new = 0.5;
-    } else {
-      prob_grow_new = 1.0;
-    }
+    double prob_grow_new = (num_leaves > 2) ? 0.5 : 1.0;
 
     // Determine whether a "grow" move was possible from the old tree,
     // in order to compute the probability of choosing "prune" from the old tree
-    bool non_constant_left = NodeNonConstant(dataset, tracker, tree_num, left_node);
-    bool non_constant_right = NodeNonConstant(dataset, tracker, tree_num, right_node);
-    double prob_prune_old;
-    if (non_constant_left && non_constant_right) {
-      prob_prune_old = 0.5;
-    } else {
-      prob_prune_old = 1.0;
+    double prob_prune_old = 1.0;
+    std::vector<int> leaves = tree->GetLeaves();
+    for (auto& leaf: leaves) {
+      if (LeafSplitPossible(tracker, tree_prior, tree_num, leaf)) {
+        prob_prune_old = 0.5;
+        break;
+      }
     }
 
     // Determine the number of leaves in the current tree and leaf parents in the proposed tree
-- 
2.43.0


From 39bab3b08b55d2f4f7a8befa1c39cd0b51cd8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 08/96] fix: update the residual by each row's own forest
 prediction

---
 include/stochtree/tree_sampler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 62fa893..c219684 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -90,13 +90,14 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
   double new_resid = 0.;
   int32_t leaf_pred;
   for (data_size_t i = 0; i < n; i++) {
+    pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
       leaf_pred = tracker.GetNodeId(i, j);
       if (requires_basis) {
-        tree_pred += tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
+        tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-        tree_pred += tree->PredictFromNode(leaf_pred);
+        tree_pred = tree->PredictFromNode(leaf_pred);
       }
       tracker.SetTreeSamplePrediction(i, j, tree_pred);
       pred_value += tree_pred;
-- 
2.43.0


From 8df04b3638a43bf9c5804bec442dd07630bdece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 09/96] fix: store the category given to
 SampleCategoryMapper::SetCategoryId

---
 include/stochtree/category_tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 04ee0b0..0b63751 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -64,7 +64,7 @@ class SampleCategoryMapper {
 
   inline void SetCategoryId(data_size_t sample_id, int category_id) {
     CHECK_LT(sample_id, num_observations_);
-    observation_indices_[sample_id] = sample_id;
+    observation_indices_[sample_id] = category_id;
   }
   
   inline int NumObservations() {return num_observations_;}
-- 
2.43.0


From 5eba13c100d8f9b56415d387f826be2ad2c0255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 10/96] fix: record the size of a final single-observation
 category

---
 include/stochtree/category_tracker.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index 0b63751..fb7e2a3 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -106,11 +106,13 @@ class CategorySampleTracker {
         }
         observation_count = 1;
         category_count_++;
-      } else if (end_cond) {
-        category_length_.push_back(observation_count+1);
       } else {
         observation_count++;
       }
+      // Record the length of the final category
+      if (end_cond) {
+        category_length_.push_back(observation_count);
+      }
       // Add the index to the category's node index vector in either case
       node_index_vector_[category_count_ - 1].emplace_back(indices_[i]);
     }
-- 
2.43.0


From f1629219869c02cde7315dfb9e2ec7abe8dc5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 11/96] fix: refuse group labels that were never seen instead
 of using the first group

---
 include/stochtree/category_tracker.h | 10 +++++-----
 include/stochtree/random_effects.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/category_tracker.h b/include/stochtree/category_tracker.h
index fb7e2a3..49420b4 100644
--- a/include/stochtree/category_tracker.h
+++ b/include/stochtree/category_tracker.h
@@ -120,21 +120,21 @@ class CategorySampleTracker {
 
   /*! \brief Zero-indexed numeric index that category_id is remapped to internally */
   inline int32_t CategoryNumber(int category_id) {
-    return category_id_map_[category_id];
+    return category_id_map_.at(category_id);
   }
 
   /*! \brief First index of data points contained in node_id */
-  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_[category_id]];}
+  inline data_size_t CategoryBegin(int category_id) {return category_begin_[category_id_map_.at(category_id)];}
 
   /*! \brief One past the last index of data points contained in node_id */
   inline data_size_t CategoryEnd(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     return category_begin_[id] + category_length_[id];
   }
 
   /*! \brief Number of data points contained in node_id */
   inline data_size_t CategorySize(int category_id) {
-    return category_length_[category_id_map_[category_id]];
+    return category_length_[category_id_map_.at(category_id)];
   }
 
   /*! \brief Number of total categories stored */
@@ -145,7 +145,7 @@ class CategorySampleTracker {
 
   /*! \brief Data indices for a given node */
   std::vector<data_size_t>& NodeIndices(int category_id) {
-    int32_t id = category_id_map_[category_id];
+    int32_t id = category_id_map_.at(category_id);
     // std::vector<data_size_t>::iterator start = indices_.begin() + category_begin_[id];
     // std::vector<data_size_t>::iterator end = indices_.begin() + category_begin_[id] + category_length_[id];
     // std::vector<data_size_t> output(start, end);
diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 7d7a65c..8502626 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -76,7 +76,7 @@ class LabelMapper {
     return pos != label_map_.end();
   }
   int32_t CategoryNumber(int32_t category_id) {
-    return label_map_[category_id];
+    return label_map_.at(category_id);
   }
   std::vector<int32_t>& Keys() {return keys_;}
   std::map<int32_t, int32_t>& Map() {return label_map_;}
-- 
2.43.0


From 9f1f2e812a8e9310ffe3f21fef5244e0295d6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 12/96] fix: replace the contents of a label mapper when it is
 read from JSON

---
 src/random_effects.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 19108d4..538b1d5 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,6 +31,7 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
+  this->Reset();
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-- 
2.43.0


From 2dc94a28b6fcbd62687e9392f894759715982a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 13/96] fix: draw variance parameters from the conjugate
 inverse-gamma posterior

---
 include/stochtree/variance_model.h | 8 ++++----
 src/random_effects.cpp             | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 53140dd..857ae38 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -26,7 +26,7 @@ class GlobalHomoskedasticVarianceModel {
   ~GlobalHomoskedasticVarianceModel() {}
   double PosteriorShape(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
-    return (nu/2.0) + n;
+    return nu + n/2.0;
   }
   double PosteriorScale(Eigen::VectorXd& residuals, double nu, double lambda) {
     data_size_t n = residuals.rows();
@@ -35,7 +35,7 @@ class GlobalHomoskedasticVarianceModel {
     for (data_size_t i = 0; i < n; i++) {
       sum_sq_resid += std::pow(residuals(i, 0), 2);
     }
-    return (nu_lambda/2.0) + sum_sq_resid;
+    return nu_lambda + sum_sq_resid/2.0;
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
     double ig_shape = PosteriorShape(residuals, nu, lambda);
@@ -54,11 +54,11 @@ class LeafNodeHomoskedasticVarianceModel {
   ~LeafNodeHomoskedasticVarianceModel() {}
   double PosteriorShape(TreeEnsemble* ensemble, double a, double b) {
     data_size_t num_leaves = ensemble->NumLeaves();
-    return (a/2.0) + num_leaves;
+    return a + num_leaves/2.0;
   }
   double PosteriorScale(TreeEnsemble* ensemble, double a, double b) {
     double mu_sq = ensemble->SumLeafSquared();
-    return (b/2.0) + mu_sq;
+    return b + mu_sq/2.0;
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
     double ig_shape = PosteriorShape(ensemble, a, b);
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 538b1d5..d9dd77f 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -166,7 +166,7 @@ Eigen::MatrixXd MultivariateRegressionRandomEffectsModel::GroupParameterVariance
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentShape(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
-  return static_cast<double>(variance_prior_shape_ + num_groups_);
+  return variance_prior_shape_ + num_groups_/2.0;
 }
 
 double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, double global_variance, int32_t component_id) {
@@ -174,7 +174,7 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
   Eigen::MatrixXd xi = group_parameters_;
   double output = variance_prior_scale_;
   for (int i = 0; i < num_groups; i++) {
-    output += xi(component_id, i)*xi(component_id, i);
+    output += xi(component_id, i)*xi(component_id, i)/2.0;
   }
   return output;
 }
-- 
2.43.0


From 177ea834252c76964414cce9b6d72b147af7fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 14/96] fix: score categorical splits with the observations of
 their own categories

---
 src/leaf_model.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/leaf_model.cpp b/src/leaf_model.cpp
index c3d54cd..787e8d7 100644
--- a/src/leaf_model.cpp
+++ b/src/leaf_model.cpp
@@ -81,12 +81,11 @@ void AccumulateCutpointBinSuffStat(SuffStatType& left_suff_stat, ForestTracker&
   // Determine cutpoint bin start and end points
   data_size_t current_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num, feature_num);
   data_size_t current_bin_size = cutpoint_grid_container.BinLength(cutpoint_num, feature_num);
-  data_size_t next_bin_begin = cutpoint_grid_container.BinStartIndex(cutpoint_num + 1, feature_num);
 
   // Cutpoint specific iterators
   // TODO: fix the hack of having to subtract off node_begin, probably by cleaning up the CutpointGridContainer interface
   auto cutpoint_begin_iter = node_begin_iter + current_bin_begin - node_begin;
-  auto cutpoint_end_iter = node_begin_iter + next_bin_begin - node_begin;
+  auto cutpoint_end_iter = cutpoint_begin_iter + current_bin_size;
 
   // Accumulate sufficient statistics
   for (auto i = cutpoint_begin_iter; i != cutpoint_end_iter; i++) {
-- 
2.43.0


From 242a0845974221b0b690b0f8100480310c6eda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 15/96] fix: end a cutpoint bin at the first new value once it
 is large enough

---
 src/cutpoint_candidates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cutpoint_candidates.cpp b/src/cutpoint_candidates.cpp
index 4a0845c..9a9e6e0 100644
--- a/src/cutpoint_candidates.cpp
+++ b/src/cutpoint_candidates.cpp
@@ -304,7 +304,7 @@ void FeatureCutpointGrid::ScanNumericCutpoints(Eigen::MatrixXd& covariates, Eige
     } else {
       next_sort_ind = feature_node_sort_tracker->SortIndex(i + 1, feature_index);
       next_val = covariates(next_sort_ind, feature_index);
-      bin_complete = ((stride_length <= step_size) && ((stride_length + 1) > step_size));
+      bin_complete = (stride_length >= step_size);
       stride_complete = ((bin_complete) && (std::fabs(next_val - current_val) > StochTree::kEpsilon));
       if (stride_complete) {
         // Update bin vectors
-- 
2.43.0


From ab617ede9ea4b73d366b4164332c2e1c1d499dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 16/96] fix: refuse a basis update with a different number of
 rows

---
 include/stochtree/data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/data.h b/include/stochtree/data.h
index 1d16e4f..bb86024 100644
--- a/include/stochtree/data.h
+++ b/include/stochtree/data.h
@@ -75,6 +75,7 @@ class ForestDataset {
   void UpdateBasis(double* data_ptr, data_size_t num_row, int num_col, bool is_row_major) {
     CHECK(has_basis_);
     CHECK_EQ(num_col, num_basis_);
+    CHECK_EQ(num_row, basis_.NumRows());
     // Copy data from R / Python process memory to Eigen matrix
     double temp_value;
     for (data_size_t i = 0; i < num_row; ++i) {
-- 
2.43.0


From 2c7acb4bd229f0f45db0eab4934f89f3224a433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 17/96] fix: use the prune move's own proposal probabilities
 the right way up

---
 include/stochtree/tree_sampler.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index c219684..3ffe3be 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -389,8 +389,8 @@ class MCMCForestSampler {
 
     // Compute the final MH ratio
     double log_mh_ratio = (
-      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_prune_old) +
-      std::log(p_leaf) - std::log(prob_grow_new) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
+      std::log(1-pg) - std::log(pg) - std::log(1-pgl) - std::log(1-pgr) + std::log(prob_grow_new) +
+      std::log(p_leaf) - std::log(prob_prune_old) - std::log(p_leaf_parent) + no_split_log_marginal_likelihood - split_log_marginal_likelihood
     );
     // Threshold at 0
     if (log_mh_ratio > 0) {
-- 
2.43.0


From 1289a647cef34d4854dd3551b248e9837a4092d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 18/96] fix: refuse sample and tree numbers that do not exist

---
 include/stochtree/container.h | 16 ++++++++--------
 include/stochtree/ensemble.h  |  2 +-
 src/container.cpp             |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/stochtree/container.h b/include/stochtree/container.h
index 1af8dd2..84beb43 100644
--- a/include/stochtree/container.h
+++ b/include/stochtree/container.h
@@ -34,18 +34,18 @@ class ForestContainer {
   std::vector<double> PredictRaw(ForestDataset& dataset);
   std::vector<double> PredictRaw(ForestDataset& dataset, int forest_num);
   
-  inline TreeEnsemble* GetEnsemble(int i) {return forests_[i].get();}
+  inline TreeEnsemble* GetEnsemble(int i) {return forests_.at(i).get();}
   inline int32_t NumSamples() {return num_samples_;}
   inline int32_t NumTrees() {return num_trees_;}  
-  inline int32_t NumTrees(int ensemble_num) {return forests_[ensemble_num]->NumTrees();}
-  inline int32_t NumLeaves(int ensemble_num) {return forests_[ensemble_num]->NumLeaves();}
+  inline int32_t NumTrees(int ensemble_num) {return forests_.at(ensemble_num)->NumTrees();}
+  inline int32_t NumLeaves(int ensemble_num) {return forests_.at(ensemble_num)->NumLeaves();}
   inline int32_t OutputDimension() {return output_dimension_;}
-  inline int32_t OutputDimension(int ensemble_num) {return forests_[ensemble_num]->OutputDimension();}
+  inline int32_t OutputDimension(int ensemble_num) {return forests_.at(ensemble_num)->OutputDimension();}
   inline bool IsLeafConstant() {return is_leaf_constant_;}
-  inline bool IsLeafConstant(int ensemble_num) {return forests_[ensemble_num]->IsLeafConstant();}
-  inline bool AllRoots(int ensemble_num) {return forests_[ensemble_num]->AllRoots();}
-  inline void SetLeafValue(int ensemble_num, double leaf_value) {forests_[ensemble_num]->SetLeafValue(leaf_value);}
-  inline void SetLeafVector(int ensemble_num, std::vector<double>& leaf_vector) {forests_[ensemble_num]->SetLeafVector(leaf_vector);}
+  inline bool IsLeafConstant(int ensemble_num) {return forests_.at(ensemble_num)->IsLeafConstant();}
+  inline bool AllRoots(int ensemble_num) {return forests_.at(ensemble_num)->AllRoots();}
+  inline void SetLeafValue(int ensemble_num, double leaf_value) {forests_.at(ensemble_num)->SetLeafValue(leaf_value);}
+  inline void SetLeafVector(int ensemble_num, std::vector<double>& leaf_vector) {forests_.at(ensemble_num)->SetLeafVector(leaf_vector);}
   inline void IncrementSampleCount() {num_samples_++;}
 
   void SaveToJsonFile(std::string filename) {
diff --git a/include/stochtree/ensemble.h b/include/stochtree/ensemble.h
index d6d2b66..2750d54 100644
--- a/include/stochtree/ensemble.h
+++ b/include/stochtree/ensemble.h
@@ -59,7 +59,7 @@ class TreeEnsemble {
   ~TreeEnsemble() {}
 
   inline Tree* GetTree(int i) {
-    return trees_[i].get();
+    return trees_.at(i).get();
   }
 
   inline void ResetTree(int i) {
diff --git a/src/container.cpp b/src/container.cpp
index 747e699..368c333 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -27,7 +27,7 @@ ForestContainer::ForestContainer(int num_samples, int num_trees, int output_dime
 }
 
 void ForestContainer::CopyFromPreviousSample(int new_sample_id, int previous_sample_id) {
-  forests_[new_sample_id].reset(new TreeEnsemble(*forests_[previous_sample_id]));
+  forests_.at(new_sample_id).reset(new TreeEnsemble(*forests_.at(previous_sample_id)));
 }
 
 void ForestContainer::InitializeRoot(double leaf_value) {
@@ -95,8 +95,8 @@ std::vector<double> ForestContainer::PredictRaw(ForestDataset& dataset, int fore
   data_size_t total_output_size = n * output_dimension_;
   std::vector<double> output(total_output_size);
   data_size_t offset = 0;
-  auto num_trees = forests_[forest_num]->NumTrees();
-  forests_[forest_num]->PredictRawInplace(dataset, output, 0, num_trees, offset);
+  auto num_trees = forests_.at(forest_num)->NumTrees();
+  forests_.at(forest_num)->PredictRawInplace(dataset, output, 0, num_trees, offset);
   return output;
 }
 
-- 
2.43.0


From 235c442b75b22b96b2fed0866d62e8fd2424a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 19/96] fix: refuse covariates that lack a split variable

---
 include/stochtree/ensemble.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/stochtree/ensemble.h b/include/stochtree/ensemble.h
index 2750d54..1a834b9 100644
--- a/include/stochtree/ensemble.h
+++ b/include/stochtree/ensemble.h
@@ -62,6 +62,17 @@ class TreeEnsemble {
     return trees_.at(i).get();
   }
 
+  /*! \brief Refuse covariates that lack a variable on which any of the trees splits, or a range of trees that does not exist */
+  inline void CheckPredictionInputs(Eigen::Index num_covariates, int tree_begin, int tree_end) {
+    CHECK_GE(tree_begin, 0);
+    CHECK_LE(tree_end, num_trees_);
+    for (int j = tree_begin; j < tree_end; j++) {
+      for (int32_t nid : trees_[j]->GetInternalNodes()) {
+        CHECK_LT(trees_[j]->SplitIndex(nid), num_covariates);
+      }
+    }
+  }
+
   inline void ResetTree(int i) {
     trees_[i].reset(new Tree());
   }
@@ -99,6 +110,7 @@ class TreeEnsemble {
     CHECK_EQ(covariates.rows(), basis.rows());
     CHECK_EQ(output_dimension_, trees_[0]->OutputDimension());
     CHECK_EQ(output_dimension_, basis.cols());
+    CheckPredictionInputs(covariates.cols(), tree_begin, tree_end);
     data_size_t n = covariates.rows();
     data_size_t total_output_size = n;
     if (output.size() < total_output_size + offset) {
@@ -123,6 +135,7 @@ class TreeEnsemble {
 
   inline void PredictInplace(Eigen::MatrixXd& covariates, std::vector<double> &output, int tree_begin, int tree_end, data_size_t offset = 0) {
     double pred;
+    CheckPredictionInputs(covariates.cols(), tree_begin, tree_end);
     data_size_t n = covariates.rows();
     data_size_t total_output_size = n;
     if (output.size() < total_output_size + offset) {
@@ -148,6 +161,7 @@ class TreeEnsemble {
     double pred;
     Eigen::MatrixXd covariates = dataset.GetCovariates();
     CHECK_EQ(output_dimension_, trees_[0]->OutputDimension());
+    CheckPredictionInputs(covariates.cols(), tree_begin, tree_end);
     data_size_t n = covariates.rows();
     data_size_t total_output_size = n * output_dimension_;
     if (output.size() < total_output_size + offset) {
@@ -259,6 +273,7 @@ class TreeEnsemble {
    */
   void PredictLeafIndicesInplace(Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>>& covariates, std::vector<int32_t>& output, int num_trees, data_size_t n) {
     CHECK_GE(output.size(), num_trees*n);
+    CheckPredictionInputs(covariates.cols(), 0, num_trees);
     int offset = 0;
     int max_leaf = 0;
     for (int j = 0; j < num_trees; j++) {
@@ -289,6 +304,7 @@ class TreeEnsemble {
    */
   void PredictLeafIndicesInplace(Eigen::MatrixXd& covariates, std::vector<int32_t>& output, int num_trees, data_size_t n) {
     CHECK_GE(output.size(), num_trees*n);
+    CheckPredictionInputs(covariates.cols(), 0, num_trees);
     int offset = 0;
     int max_leaf = 0;
     for (int j = 0; j < num_trees; j++) {
-- 
2.43.0


From d942e8d81bd199cf3b853cdb99417e39a032b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 20/96] fix: leave a container as it was when a JSON document
 cannot be read

---
 include/stochtree/container.h |  4 +++-
 src/container.cpp             | 32 +++++++++++++++++---------
 src/random_effects.cpp        | 42 ++++++++++++++++++++++-------------
 3 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/include/stochtree/container.h b/include/stochtree/container.h
index 84beb43..b12e635 100644
--- a/include/stochtree/container.h
+++ b/include/stochtree/container.h
@@ -52,12 +52,14 @@ class ForestContainer {
     nlohmann::json model_json = this->to_json();
     std::ofstream output_file(filename);
     output_file << model_json << std::endl;
+    if (!output_file) {
+      Log::Fatal("Unable to write %s", filename.c_str());
+    }
   }
   
   void LoadFromJsonFile(std::string filename) {
     std::ifstream f(filename);
     nlohmann::json file_tree_json = nlohmann::json::parse(f);
-    this->Reset();
     this->from_json(file_tree_json);
   }
 
diff --git a/src/container.cpp b/src/container.cpp
index 368c333..c682a71 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -120,20 +120,32 @@ json ForestContainer::to_json() {
 
 /*! \brief Load from JSON */
 void ForestContainer::from_json(const json& forest_container_json) {
-  this->num_samples_ = forest_container_json.at("num_samples");
-  this->num_trees_ = forest_container_json.at("num_trees");
-  this->output_dimension_ = forest_container_json.at("output_dimension");
-  this->is_leaf_constant_ = forest_container_json.at("is_leaf_constant");
-  this->initialized_ = forest_container_json.at("initialized");
+  // Read the whole document before replacing anything, so that a document 
+  // which cannot be read leaves the container as it was
+  int num_samples = forest_container_json.at("num_samples");
+  int num_trees = forest_container_json.at("num_trees");
+  int output_dimension = forest_container_json.at("output_dimension");
+  bool is_leaf_constant = forest_container_json.at("is_leaf_constant");
+  bool initialized = forest_container_json.at("initialized");
+  CHECK_GE(num_samples, 0);
+  CHECK_GE(num_trees, 0);
 
   std::string forest_label;
-  forests_.clear();
-  forests_.resize(this->num_samples_);
-  for (int i = 0; i < this->num_samples_; i++) {
+  std::vector<std::unique_ptr<TreeEnsemble>> forests;
+  for (int i = 0; i < num_samples; i++) {
     forest_label = "forest_" + std::to_string(i);
-    forests_[i] = std::make_unique<TreeEnsemble>(this->num_trees_, this->output_dimension_, this->is_leaf_constant_);
-    forests_[i]->from_json(forest_container_json.at(forest_label));
+    forests.push_back(std::make_unique<TreeEnsemble>(num_trees, output_dimension, is_leaf_constant));
+    forests[i]->from_json(forest_container_json.at(forest_label));
+    CHECK_EQ(forests[i]->NumTrees(), num_trees);
+    CHECK_EQ(forests[i]->OutputDimension(), output_dimension);
   }
+
+  this->num_samples_ = num_samples;
+  this->num_trees_ = num_trees;
+  this->output_dimension_ = output_dimension;
+  this->is_leaf_constant_ = is_leaf_constant;
+  this->initialized_ = initialized;
+  forests_ = std::move(forests);
 }
 
 } // namespace StochTree
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index d9dd77f..0d1000d 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -31,13 +31,16 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   int num_keys = rfx_label_mapper_json.at("keys").size();
   int num_values = rfx_label_mapper_json.at("values").size();
   CHECK_EQ(num_keys, num_values);
-  this->Reset();
+  std::vector<int32_t> keys;
+  std::map<int32_t, int32_t> label_map;
   for (int i = 0; i < num_keys; i++) {
     int32_t key = rfx_label_mapper_json.at("keys").at(i);
     int32_t value = rfx_label_mapper_json.at("values").at(i);
-    keys_.push_back(key);
-    label_map_.insert({key, value});
+    keys.push_back(key);
+    label_map.insert({key, value});
   }
+  keys_ = std::move(keys);
+  label_map_ = std::move(label_map);
 }
 
 void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, 
@@ -268,31 +271,38 @@ return result_obj;
 }
 
 void RandomEffectsContainer::from_json(const nlohmann::json& rfx_container_json) {
+  // Read the whole document before replacing anything, so that a document 
+  // which cannot be read leaves the container as it was
   int beta_size = rfx_container_json.at("beta_size");
   int alpha_size = rfx_container_json.at("alpha_size");
-
-  // Clear all internal arrays
-  beta_.clear();
-  xi_.clear();
-  alpha_.clear();
-  sigma_xi_.clear();
+  std::vector<double> beta, xi, alpha, sigma_xi;
 
   // Unpack internal counts
-  this->num_samples_ = rfx_container_json.at("num_samples");
-  this->num_components_ = rfx_container_json.at("num_components");
-  this->num_groups_ = rfx_container_json.at("num_groups");
+  int num_samples = rfx_container_json.at("num_samples");
+  int num_components = rfx_container_json.at("num_components");
+  int num_groups = rfx_container_json.at("num_groups");
+  CHECK_EQ(beta_size, num_samples*num_components*num_groups);
+  CHECK_EQ(alpha_size, num_samples*num_components);
   
   // Unpack beta and xi
   for (int i = 0; i < beta_size; i++) {
-    beta_.push_back(rfx_container_json.at("beta").at(i));
-    xi_.push_back(rfx_container_json.at("xi").at(i));
+    beta.push_back(rfx_container_json.at("beta").at(i));
+    xi.push_back(rfx_container_json.at("xi").at(i));
   }
   
   // Unpack alpha and sigma_xi
   for (int i = 0; i < alpha_size; i++) {
-    alpha_.push_back(rfx_container_json.at("alpha").at(i));
-    sigma_xi_.push_back(rfx_container_json.at("sigma_xi").at(i));
+    alpha.push_back(rfx_container_json.at("alpha").at(i));
+    sigma_xi.push_back(rfx_container_json.at("sigma_xi").at(i));
   }
+
+  this->num_samples_ = num_samples;
+  this->num_components_ = num_components;
+  this->num_groups_ = num_groups;
+  beta_ = std::move(beta);
+  xi_ = std::move(xi);
+  alpha_ = std::move(alpha);
+  sigma_xi_ = std::move(sigma_xi);
 }
 
 }  // namespace StochTree
-- 
2.43.0


From e02e2226a1d8f41ea5e7ce3677709569305c2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 21/96] fix: refuse sampler inputs whose sizes disagree

---
 include/stochtree/tree_sampler.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 3ffe3be..0545756 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -83,7 +83,33 @@ static inline double ComputeMeanOutcome(ColumnVector& residual) {
   return total_outcome / static_cast<double>(n);
 }
 
+/*! \brief Refuse a dataset or residual whose sizes do not agree with each other, the tracker and the forest */
+static inline void CheckForestInputs(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, int num_trees, int output_dimension, bool requires_basis) {
+  data_size_t n = dataset.GetCovariates().rows();
+  CHECK(dataset.HasCovariates());
+  CHECK_EQ(residual.NumRows(), n);
+  CHECK_EQ(tracker.GetSampleNodeMapper()->NumObservations(), n);
+  CHECK_EQ(tracker.GetSampleNodeMapper()->NumTrees(), num_trees);
+  if (requires_basis) {
+    CHECK(dataset.HasBasis());
+    CHECK_EQ(dataset.GetBasis().rows(), n);
+    CHECK_EQ(dataset.GetBasis().cols(), output_dimension);
+  } else {
+    CHECK_EQ(output_dimension, 1);
+  }
+}
+
+/*! \brief Refuse sampler inputs that do not agree with each other, the tracker and the forests */
+static inline void CheckSamplerInputs(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, ForestContainer& forests, std::vector<double>& variable_weights, bool requires_basis) {
+  CheckForestInputs(tracker, dataset, residual, forests.NumTrees(), forests.OutputDimension(), requires_basis);
+  CHECK_EQ(variable_weights.size(), dataset.NumCovariates());
+  if (dataset.HasVarWeights()) {
+    CHECK_EQ(dataset.GetVarWeights().size(), dataset.NumObservations());
+  }
+}
+
 static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, TreeEnsemble* forest, bool requires_basis, std::function<double(double, double)> op) {
+  CheckForestInputs(tracker, dataset, residual, forest->NumTrees(), forest->OutputDimension(), requires_basis);
   data_size_t n = dataset.GetCovariates().rows();
   double tree_pred = 0.;
   double pred_value = 0.;
@@ -145,6 +171,8 @@ class MCMCForestSampler {
   void SampleOneIter(ForestTracker& tracker, ForestContainer& forests, LeafModel& leaf_model, ForestDataset& dataset, 
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, bool pre_initialized = false) {
+    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
     
@@ -420,6 +448,9 @@ class GFRForestSampler {
   void SampleOneIter(ForestTracker& tracker, ForestContainer& forests, LeafModel& leaf_model, ForestDataset& dataset, 
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
+    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+    CHECK_EQ(feature_types.size(), dataset.NumCovariates());
+
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
     
-- 
2.43.0


From 3eecd86df77023a1c5c7a1cb2d2228feba6014b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 22/96] fix: refuse random-effect inputs whose sizes disagree

---
 include/stochtree/random_effects.h | 13 ++++++++++++-
 src/random_effects.cpp             | 11 +++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 8502626..135993d 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -156,7 +156,17 @@ class MultivariateRegressionRandomEffectsModel {
   }
   inline int32_t NumComponents() {return num_components_;}
   inline int32_t NumGroups() {return num_groups_;}
-  
+
+  /*! \brief Refuse data, parameters or a tracker whose sizes do not agree with the model */
+  void CheckInputs(RandomEffectsDataset& dataset, RandomEffectsTracker& tracker) {
+    CHECK_EQ(dataset.GetBasis().cols(), num_components_);
+    CHECK_EQ(dataset.GetBasis().rows(), dataset.GetGroupLabels().size());
+    CHECK_EQ(tracker.NumCategories(), num_groups_);
+    CHECK_EQ(working_parameter_.size(), num_components_);
+    CHECK_EQ(group_parameters_.rows(), num_components_);
+    CHECK_EQ(group_parameters_.cols(), num_groups_);
+  }
+
   std::vector<double> Predict(RandomEffectsDataset& dataset, RandomEffectsTracker& tracker) {
     std::vector<double> output(dataset.NumObservations());
     PredictInplace(dataset, tracker, output);
@@ -164,6 +174,7 @@ class MultivariateRegressionRandomEffectsModel {
   }
 
   void PredictInplace(RandomEffectsDataset& dataset, RandomEffectsTracker& tracker, std::vector<double>& output) {
+    CheckInputs(dataset, tracker);
     Eigen::MatrixXd X = dataset.GetBasis();
     std::vector<int32_t> group_labels = dataset.GetGroupLabels();
     CHECK_EQ(X.rows(), group_labels.size());
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 0d1000d..79ed38c 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -45,6 +45,13 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
 
 void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, 
                                                                    double global_variance, std::mt19937& gen) {
+  CheckInputs(dataset, rfx_tracker);
+  CHECK_EQ(rfx_tracker.GetSampleCategoryMapper()->NumObservations(), dataset.NumObservations());
+  CHECK_EQ(working_parameter_covariance_.rows(), num_components_);
+  CHECK_EQ(working_parameter_covariance_.cols(), num_components_);
+  CHECK_EQ(group_parameter_covariance_.rows(), num_components_);
+  CHECK_EQ(group_parameter_covariance_.cols(), num_components_);
+
   // Update partial residual to add back in the random effects
   AddCurrentPredictionToResidual(dataset, rfx_tracker, residual);
   
@@ -183,6 +190,9 @@ double MultivariateRegressionRandomEffectsModel::VarianceComponentScale(RandomEf
 }
 
 void RandomEffectsContainer::AddSample(MultivariateRegressionRandomEffectsModel& model){
+  CHECK_EQ(model.NumComponents(), num_components_);
+  CHECK_EQ(model.NumGroups(), num_groups_);
+
   // Increment number of samples
   int sample_ind = num_samples_;
   num_samples_++;
@@ -215,6 +225,7 @@ void RandomEffectsContainer::Predict(RandomEffectsDataset& dataset, LabelMapper&
   std::vector<int32_t> group_labels = dataset.GetGroupLabels();
   CHECK_EQ(X.rows(), group_labels.size());
   int n = X.rows();
+  CHECK_EQ(X.cols(), num_components_);
   CHECK_EQ(n*num_samples_, output.size());
   std::int32_t group_ind;
   double pred;
-- 
2.43.0


From faf041318e0f5300076f7eeda25311fa5772bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 23/96] fix: raise an error when a JSON file cannot be written

---
 src/py_stochtree.cpp  | 3 +++
 src/serialization.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index cb329f1..e56ce5c 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -427,6 +427,9 @@ class JsonCpp {
   void SaveFile(std::string filename) {
     std::ofstream output_file(filename);
     output_file << *json_ << std::endl;
+    if (!output_file) {
+      StochTree::Log::Fatal("Unable to write %s", filename.c_str());
+    }
   }
 
   std::string DumpJson() {
diff --git a/src/serialization.cpp b/src/serialization.cpp
index ba73475..f8c512b 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -308,6 +308,9 @@ std::string json_add_rfx_groupids_cpp(cpp11::external_pointer<nlohmann::json> js
 void json_save_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string filename) {
     std::ofstream output_file(filename);
     output_file << *json_ptr << std::endl;
+    if (!output_file) {
+        cpp11::stop("Unable to write %s", filename.c_str());
+    }
 }
 
 [[cpp11::register]]
-- 
2.43.0


From 021759ce6329234f71eca8c58c6c290be1e79dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 24/96] fix: do not add a sample when the starting leaf value
 is refused

---
 include/stochtree/tree_sampler.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 0545756..ffb3ebf 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -177,13 +177,15 @@ class MCMCForestSampler {
     int prev_num_samples = forests.NumSamples();
     
     if ((prev_num_samples == 0) && (!pre_initialized)) {
+      // Set initial value for each leaf in a forest, before a sample is added, since the leaf model can refuse the value
+      double root_pred = ComputeMeanOutcome(residual) / static_cast<double>(forests.NumTrees());
+      TreeEnsemble initial_forest(forests.NumTrees(), forests.OutputDimension(), forests.IsLeafConstant());
+      leaf_model.SetEnsembleRootPredictedValue(dataset, &initial_forest, root_pred);
+      
       // Add new forest to the container
       forests.AddSamples(1);
-      
-      // Set initial value for each leaf in the forest
-      double root_pred = ComputeMeanOutcome(residual) / static_cast<double>(forests.NumTrees());
       TreeEnsemble* ensemble = forests.GetEnsemble(0);
-      leaf_model.SetEnsembleRootPredictedValue(dataset, ensemble, root_pred);
+      for (int i = 0; i < forests.NumTrees(); i++) ensemble->CloneFromExistingTree(i, initial_forest.GetTree(i));
     } else if (prev_num_samples > 0) {
       // Add new forest to the container
       forests.AddSamples(1);
@@ -455,13 +457,15 @@ class GFRForestSampler {
     int prev_num_samples = forests.NumSamples();
     
     if ((prev_num_samples == 0) && (!pre_initialized)) {
+      // Set initial value for each leaf in a forest, before a sample is added, since the leaf model can refuse the value
+      double root_pred = ComputeMeanOutcome(residual) / static_cast<double>(forests.NumTrees());
+      TreeEnsemble initial_forest(forests.NumTrees(), forests.OutputDimension(), forests.IsLeafConstant());
+      leaf_model.SetEnsembleRootPredictedValue(dataset, &initial_forest, root_pred);
+      
       // Add new forest to the container
       forests.AddSamples(1);
-      
-      // Set initial value for each leaf in the forest
-      double root_pred = ComputeMeanOutcome(residual) / static_cast<double>(forests.NumTrees());
       TreeEnsemble* ensemble = forests.GetEnsemble(0);
-      leaf_model.SetEnsembleRootPredictedValue(dataset, ensemble, root_pred);
+      for (int i = 0; i < forests.NumTrees(); i++) ensemble->CloneFromExistingTree(i, initial_forest.GetTree(i));
     } else if (prev_num_samples > 0) {
       // Add new forest to the container
       forests.AddSamples(1);
-- 
2.43.0


From 39e4adb0758b9ee22d2b2a0a2267e978a18b7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 25/96] fix: do not read past the end of a text block when
 skipping line ends

---
 include/stochtree/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stochtree/io.h b/include/stochtree/io.h
index 3bc277f..892c2fa 100644
--- a/include/stochtree/io.h
+++ b/include/stochtree/io.h
@@ -519,7 +519,7 @@ class TextReader {
           ++i;
           ++total_cnt;
           // skip end of line
-          while ((buffer_process[i] == '\n' || buffer_process[i] == '\r') && i < read_cnt) { ++i; }
+          while (i < read_cnt && (buffer_process[i] == '\n' || buffer_process[i] == '\r')) { ++i; }
           last_i = i;
         } else {
           ++i;
-- 
2.43.0


From 009d07484693daf69bde0418c33f38d5556d5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 26/96] fix: pass integer columns through and one-hot encode
 string columns

---
 stochtree/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index b9c6ceb..4ef0bdc 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -62,7 +62,7 @@ class CovariateTransformer:
         categorical_types = covariates.apply(lambda x: isinstance(x.dtype, pd.CategoricalDtype))
         float_types = covariates.apply(lambda x: pd.api.types.is_float_dtype(x))
         integer_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
-        string_types = covariates.apply(lambda x: pd.api.types.is_integer_dtype(x))
+        string_types = covariates.apply(lambda x: isinstance(x.dtype, pd.StringDtype))
         if np.any(datetime_types):
             # raise ValueError("DateTime columns are currently unsupported")
             datetime_cols = covariates.columns[datetime_types].to_list()
@@ -109,7 +109,7 @@ class CovariateTransformer:
                     self._processed_feature_types.extend(feature_ones)
             elif string_types.iloc[i]:
                 self._original_feature_types[i] = "string"
-                onehot_index = self._process_unordered_categorical(covariate)
+                onehot_index = self._process_unordered_categorical(covariate.astype("category"))
                 self._onehot_feature_index[i] = onehot_index
                 feature_ones = np.repeat(1, len(self._onehot_encoders[onehot_index].categories_[0])).tolist()
                 self._processed_feature_types.extend(feature_ones)
-- 
2.43.0


From 1225a708d9d72a441121534c7d8aa2f883b83d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 27/96] fix: refitting a CovariateTransformer starts from a
 clean state

---
 stochtree/preprocessing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 4ef0bdc..023cd09 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -157,6 +157,12 @@ class CovariateTransformer:
                 self._processed_feature_types.append(0)
 
     def _fit(self, covariates: Union[pd.DataFrame, np.array]) -> None:
+        # Discard whatever an earlier fit has stored
+        self._is_fitted = False
+        self._ordinal_encoders = []
+        self._onehot_encoders = []
+        self._processed_feature_types = []
+        self._original_feature_indices = []
         if isinstance(covariates, pd.DataFrame):
             self._fit_pandas(covariates)
         elif isinstance(covariates, np.ndarray):
-- 
2.43.0


From 26237902356ef835c908713fb7f18041420952a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 28/96] fix: encode unordered categorical columns that have a
 single category

---
 stochtree/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 023cd09..286b291 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -184,14 +184,14 @@ class CovariateTransformer:
                 if self._ordinal_feature_index[i] != -1:
                     ord_ind = self._ordinal_feature_index[i]
                     covariate_transformed = self._ordinal_encoders[ord_ind].transform(pd.DataFrame(covariate))
-                    output_array[:,output_iter] = np.squeeze(covariate_transformed)
+                    output_array[:,output_iter] = covariate_transformed[:,0]
                     output_iter += 1
                     self._original_feature_indices.append(i)
                 else:
                     onehot_ind = self._onehot_feature_index[i]
                     covariate_transformed = self._onehot_encoders[onehot_ind].transform(pd.DataFrame(covariate))
                     output_dim = covariate_transformed.shape[1]
-                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = np.squeeze(covariate_transformed)
+                    output_array[:,np.arange(output_iter, output_iter + output_dim)] = covariate_transformed
                     output_iter += output_dim
                     self._original_feature_indices.extend([i for _ in range(output_dim)])
             
-- 
2.43.0


From fff2b31b2175085d284cced79ab5b16c35b4b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 29/96] fix: a root value of the wrong dimension leaves the
 container unchanged

---
 src/container.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/container.cpp b/src/container.cpp
index c682a71..cdb3d2a 100644
--- a/src/container.cpp
+++ b/src/container.cpp
@@ -34,24 +34,28 @@ void ForestContainer::InitializeRoot(double leaf_value) {
   CHECK(initialized_);
   CHECK_EQ(num_samples_, 0);
   CHECK_EQ(forests_.size(), 0);
+  // Set the value before storing the forest, since a value of the wrong dimension is refused
+  std::unique_ptr<TreeEnsemble> forest = std::make_unique<TreeEnsemble>(num_trees_, output_dimension_, is_leaf_constant_);
+  forest->SetLeafValue(leaf_value);
   forests_.resize(1);
-  forests_[0].reset(new TreeEnsemble(num_trees_, output_dimension_, is_leaf_constant_));
+  forests_[0] = std::move(forest);
   // NOTE: not setting num_samples = 1, since we are just initializing constant root 
   // nodes and the forest still needs to be sampled by either MCMC or GFR
   num_samples_ = 0;
-  SetLeafValue(0, leaf_value);
 }
 
 void ForestContainer::InitializeRoot(std::vector<double>& leaf_vector) {
   CHECK(initialized_);
   CHECK_EQ(num_samples_, 0);
   CHECK_EQ(forests_.size(), 0);
+  // Set the value before storing the forest, since a value of the wrong dimension is refused
+  std::unique_ptr<TreeEnsemble> forest = std::make_unique<TreeEnsemble>(num_trees_, output_dimension_, is_leaf_constant_);
+  forest->SetLeafVector(leaf_vector);
   forests_.resize(1);
-  forests_[0].reset(new TreeEnsemble(num_trees_, output_dimension_, is_leaf_constant_));
+  forests_[0] = std::move(forest);
   // NOTE: not setting num_samples = 1, since we are just initializing constant root 
   // nodes and the forest still needs to be sampled by either MCMC or GFR
   num_samples_ = 0;
-  SetLeafVector(0, leaf_vector);
 }
 
 void ForestContainer::AddSamples(int num_samples) {
-- 
2.43.0


From e0f5164d742ee2d35d76c73db4ec628c56339b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 30/96] fix: a refused forest-wide leaf value changes no tree

---
 include/stochtree/ensemble.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/ensemble.h b/include/stochtree/ensemble.h
index 1a834b9..bb9b8de 100644
--- a/include/stochtree/ensemble.h
+++ b/include/stochtree/ensemble.h
@@ -219,16 +219,16 @@ class TreeEnsemble {
 
   inline void SetLeafValue(double leaf_value) {
     CHECK_EQ(output_dimension_, 1);
+    CHECK(AllRoots());
     for (int i = 0; i < num_trees_; i++) {
-      CHECK(trees_[i]->IsRoot());
       trees_[i]->SetLeaf(0, leaf_value);
     }
   }
 
   inline void SetLeafVector(std::vector<double>& leaf_vector) {
     CHECK_EQ(output_dimension_, leaf_vector.size());
+    CHECK(AllRoots());
     for (int i = 0; i < num_trees_; i++) {
-      CHECK(trees_[i]->IsRoot());
       trees_[i]->SetLeafVector(0, leaf_vector);
     }
   }
-- 
2.43.0


From ac4b1c39fab9df71879cac7ae521ba40045d63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 31/96] fix: read strided and read-only numpy arrays as they
 are

---
 src/py_stochtree.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index e56ce5c..29fbae0 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -35,7 +35,7 @@ class ForestDatasetCpp {
 
   void AddCovariates(py::array_t<double> covariate_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(covariate_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(covariate_matrix.data());
     
     // Load covariates
     dataset_->AddCovariates(data_ptr, num_row, num_col, row_major);
@@ -43,7 +43,7 @@ class ForestDatasetCpp {
 
   void AddBasis(py::array_t<double> basis_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(basis_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(basis_matrix.data());
     
     // Load covariates
     dataset_->AddBasis(data_ptr, num_row, num_col, row_major);
@@ -51,15 +51,15 @@ class ForestDatasetCpp {
 
   void UpdateBasis(py::array_t<double> basis_matrix, data_size_t num_row, int num_col, bool row_major) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(basis_matrix.mutable_data());
+    double* data_ptr = const_cast<double*>(basis_matrix.data());
     
     // Load covariates
     dataset_->UpdateBasis(data_ptr, num_row, num_col, row_major);
   }
 
-  void AddVarianceWeights(py::array_t<double> weight_vector, data_size_t num_row) {
+  void AddVarianceWeights(py::array_t<double, py::array::c_style | py::array::forcecast> weight_vector, data_size_t num_row) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(weight_vector.mutable_data());
+    double* data_ptr = const_cast<double*>(weight_vector.data());
     
     // Load covariates
     dataset_->AddVarianceWeights(data_ptr, num_row);
@@ -79,9 +79,9 @@ class ForestDatasetCpp {
 
 class ResidualCpp {
  public:
-  ResidualCpp(py::array_t<double> residual_array, data_size_t num_row) {
+  ResidualCpp(py::array_t<double, py::array::c_style | py::array::forcecast> residual_array, data_size_t num_row) {
     // Extract pointer to contiguous block of memory
-    double* data_ptr = static_cast<double*>(residual_array.mutable_data());
+    double* data_ptr = const_cast<double*>(residual_array.data());
     
     // Initialize pointer to C++ ColumnVector class
     residual_ = std::make_unique<StochTree::ColumnVector>(data_ptr, num_row);
@@ -726,7 +726,7 @@ PYBIND11_MODULE(stochtree_cpp, m) {
     .def("NumRows", &ForestDatasetCpp::NumRows);
 
   py::class_<ResidualCpp>(m, "ResidualCpp")
-    .def(py::init<py::array_t<double>,data_size_t>());
+    .def(py::init<py::array_t<double, py::array::c_style | py::array::forcecast>,data_size_t>());
 
   py::class_<RngCpp>(m, "RngCpp")
     .def(py::init<int>());
-- 
2.43.0


From 217b90851c2d4b1846cb9ff0d8803c0068ff2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 32/96] fix: store one-element and read-only numeric vectors in
 json

---
 src/py_stochtree.cpp       | 4 ++--
 stochtree/serialization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index 29fbae0..5e1cc70 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -510,7 +510,7 @@ class JsonCpp {
 
   void AddDoubleVector(std::string field_name, py::array_t<double> field_vector) {
     int vec_length = field_vector.size();
-    auto accessor = field_vector.mutable_unchecked<1>();
+    auto accessor = field_vector.unchecked<1>();
     if (json_->contains(field_name)) {
       json_->at(field_name).clear();
       for (int i = 0; i < vec_length; i++) {
@@ -526,7 +526,7 @@ class JsonCpp {
 
   void AddDoubleVectorSubfolder(std::string subfolder_name, std::string field_name, py::array_t<double> field_vector) {
     int vec_length = field_vector.size();
-    auto accessor = field_vector.mutable_unchecked<1>();
+    auto accessor = field_vector.unchecked<1>();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
         json_->at(subfolder_name).at(field_name).clear();
diff --git a/stochtree/serialization.py b/stochtree/serialization.py
index 9c7d04b..daa2688 100644
--- a/stochtree/serialization.py
+++ b/stochtree/serialization.py
@@ -83,7 +83,7 @@ class JSONSerializer:
         # Runtime checks
         if not isinstance(field_vector, np.ndarray):
             raise ValueError("field_vector must be a numpy array")
-        field_vector = np.squeeze(field_vector)
+        field_vector = np.atleast_1d(np.squeeze(field_vector))
         if field_vector.ndim > 1:
             warnings.warn("field_vector has more than 1 dimension. It will be flattened in row-major order using np.ravel()")
             field_vector = np.ravel(field_vector, order = "C")
-- 
2.43.0


From 659ce205202098a11b99513a52af8e2585eb7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 33/96] fix: a vector can replace a json entry of another kind

---
 src/py_stochtree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index 5e1cc70..aaf7ea5 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -512,7 +512,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     auto accessor = field_vector.unchecked<1>();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(accessor(i));
       }
@@ -529,7 +529,7 @@ class JsonCpp {
     auto accessor = field_vector.unchecked<1>();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(accessor(i));
         }
@@ -551,7 +551,7 @@ class JsonCpp {
   void AddStringVector(std::string field_name, std::vector<std::string>& field_vector) {
     int vec_length = field_vector.size();
     if (json_->contains(field_name)) {
-      json_->at(field_name).clear();
+      json_->at(field_name) = nlohmann::json::array();
       for (int i = 0; i < vec_length; i++) {
         json_->at(field_name).emplace_back(field_vector.at(i));
       }
@@ -567,7 +567,7 @@ class JsonCpp {
     int vec_length = field_vector.size();
     if (json_->contains(subfolder_name)) {
       if (json_->at(subfolder_name).contains(field_name)) {
-        json_->at(subfolder_name).at(field_name).clear();
+        json_->at(subfolder_name).at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
           json_->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
         }
-- 
2.43.0


From ee2e475865c37877d93f7a78f57eef339ec5e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 34/96] fix: refuse an unknown leaf model number

---
 src/py_stochtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index aaf7ea5..5aec926 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -285,6 +285,7 @@ class ForestSamplerCpp {
     if (leaf_model_int == 0) leaf_model_enum = ForestLeafModel::kConstant;
     else if (leaf_model_int == 1) leaf_model_enum = ForestLeafModel::kUnivariateRegression;
     else if (leaf_model_int == 2) leaf_model_enum = ForestLeafModel::kMultivariateRegression;
+    else StochTree::Log::Fatal("Unknown leaf model %d", leaf_model_int);
 
     // Unpack leaf model parameters
     double leaf_scale;
-- 
2.43.0


From 635b13c7e56787bfc5a08ebb334a2107c4b33dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:27 +0000
Subject: [PATCH 35/96] fix: refuse root values for a forest that is not the
 initial one

---
 src/py_stochtree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_stochtree.cpp b/src/py_stochtree.cpp
index 5aec926..1263bb7 100644
--- a/src/py_stochtree.cpp
+++ b/src/py_stochtree.cpp
@@ -211,10 +211,12 @@ class ForestContainerCpp {
   }
 
   void SetRootValue(int forest_num, double leaf_value) {
+    if (forest_num != 0) StochTree::Log::Fatal("Root values can only be set for the first forest, before sampling");
     forest_samples_->InitializeRoot(leaf_value);
   }
 
   void SetRootVector(int forest_num, py::array_t<double>& leaf_vector, int leaf_size) {
+    if (forest_num != 0) StochTree::Log::Fatal("Root values can only be set for the first forest, before sampling");
     std::vector<double> leaf_vector_converted(leaf_size);
     for (int i = 0; i < leaf_size; i++) {
         leaf_vector_converted[i] = leaf_vector.at(i);
-- 
2.43.0


From 333342bdeaf48a0cce16a83bafb3860769b0d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 36/96] fix: refuse trackers whose feature types or rows do not
 match the covariates

---
 include/stochtree/partition_tracker.h | 1 +
 include/stochtree/tree_sampler.h      | 1 +
 src/partition_tracker.cpp             | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/include/stochtree/partition_tracker.h b/include/stochtree/partition_tracker.h
index 6025496..7f2a6b7 100644
--- a/include/stochtree/partition_tracker.h
+++ b/include/stochtree/partition_tracker.h
@@ -71,6 +71,7 @@ class ForestTracker {
   std::vector<data_size_t>::iterator UnsortedNodeEndIterator(int tree_id, int node_id);
   std::vector<data_size_t>::iterator SortedNodeBeginIterator(int node_id, int feature_id);
   std::vector<data_size_t>::iterator SortedNodeEndIterator(int node_id, int feature_id);
+  int NumFeatures() {return num_features_;}
   SamplePredMapper* GetSamplePredMapper() {return sample_pred_mapper_.get();}
   SampleNodeMapper* GetSampleNodeMapper() {return sample_node_mapper_.get();}
   UnsortedNodeSampleTracker* GetUnsortedNodeSampleTracker() {return unsorted_node_sample_tracker_.get();}
diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index ffb3ebf..2d094b1 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -90,6 +90,7 @@ static inline void CheckForestInputs(ForestTracker& tracker, ForestDataset& data
   CHECK_EQ(residual.NumRows(), n);
   CHECK_EQ(tracker.GetSampleNodeMapper()->NumObservations(), n);
   CHECK_EQ(tracker.GetSampleNodeMapper()->NumTrees(), num_trees);
+  CHECK_EQ(tracker.NumFeatures(), dataset.NumCovariates());
   if (requires_basis) {
     CHECK(dataset.HasBasis());
     CHECK_EQ(dataset.GetBasis().rows(), n);
diff --git a/src/partition_tracker.cpp b/src/partition_tracker.cpp
index 1b0caf2..5449c8a 100644
--- a/src/partition_tracker.cpp
+++ b/src/partition_tracker.cpp
@@ -15,6 +15,8 @@
 namespace StochTree {
 
 ForestTracker::ForestTracker(Eigen::MatrixXd& covariates, std::vector<FeatureType>& feature_types, int num_trees, int num_observations) {
+  CHECK_EQ(feature_types.size(), covariates.cols());
+  CHECK_EQ(num_observations, covariates.rows());
   sample_pred_mapper_ = std::make_unique<SamplePredMapper>(num_trees, num_observations);
   sample_node_mapper_ = std::make_unique<SampleNodeMapper>(num_trees, num_observations);
   unsorted_node_sample_tracker_ = std::make_unique<UnsortedNodeSampleTracker>(num_observations, num_trees);
-- 
2.43.0


From ee262e4a443989c9bf52eccc81a4778a9bc6da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 37/96] fix: refuse a cutpoint grid without cutpoints

---
 include/stochtree/tree_sampler.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 2d094b1..01e3acb 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -453,6 +453,7 @@ class GFRForestSampler {
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
     CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
     CHECK_EQ(feature_types.size(), dataset.NumCovariates());
+    CHECK_GT(cutpoint_grid_size_, 0);
 
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
-- 
2.43.0


From 948fe9c25daca56fda92c475a551356edfd115b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 38/96] fix: calibrate the error variance for any covariates
 and whenever it is needed

---
 stochtree/bart.py  |  8 +++-----
 stochtree/bcf.py   |  8 +++-----
 stochtree/utils.py | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 963c47e..4606b3c 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -3,13 +3,12 @@ Bayesian Additive Regression Trees (BART) module
 """
 import numpy as np
 import pandas as pd
-from scipy.linalg import lstsq
 from scipy.stats import gamma
 from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError
+from .utils import NotSampledError, residual_variance
 
 class BARTModel:
     """Class that handles sampling, storage, and serialization of stochastic forest models like BART, XBART, and Warm-Start BART
@@ -172,10 +171,9 @@ class BARTModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf
+        if lamb is None or sigma2 is None:
+            sigma2hat = residual_variance(X_train_processed, resid_train)
         if lamb is None:
-            reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
-            reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index bfc334d..342e620 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -7,14 +7,13 @@ from sklearn.ensemble import HistGradientBoostingClassifier, HistGradientBoostin
 from sklearn.model_selection import GridSearchCV, KFold
 from sklearn.utils import check_scalar
 from typing import Optional, Union
-from scipy.linalg import lstsq
 from scipy.stats import gamma
 from .bart import BARTModel
 from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError
+from .utils import NotSampledError, residual_variance
 
 class BCFModel:
     """Class that handles sampling, storage, and serialization of causal BART models like BCF, XBCF, and Warm-Start BCF
@@ -505,10 +504,9 @@ class BCFModel:
         resid_train = (y_train-self.y_bar)/self.y_std
 
         # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
+        if lamb is None or sigma2 is None:
+            sigma2hat = residual_variance(X_train_processed, resid_train)
         if lamb is None:
-            reg_basis = np.c_[np.ones(self.n_train),X_train_processed]
-            reg_soln = lstsq(reg_basis, np.squeeze(resid_train))
-            sigma2hat = reg_soln[1] / self.n_train
             quantile_cutoff = q
             lamb = (sigma2hat*gamma.ppf(1-quantile_cutoff,nu))/nu
         sigma2 = sigma2hat if sigma2 is None else sigma2
diff --git a/stochtree/utils.py b/stochtree/utils.py
index be09935..2a8f10a 100644
--- a/stochtree/utils.py
+++ b/stochtree/utils.py
@@ -1,3 +1,17 @@
+import numpy as np
+from scipy.linalg import lstsq
+
+def residual_variance(covariates: np.array, outcome: np.array) -> float:
+    """Mean squared residual of a linear regression of ``outcome`` on ``covariates`` and an intercept, 
+    or the variance of ``outcome`` if the regression leaves no degrees of freedom
+    """
+    outcome = np.reshape(outcome, -1)
+    reg_basis = np.c_[np.ones(outcome.shape[0]), covariates]
+    coefs, _, rank, _ = lstsq(reg_basis, outcome)
+    if rank >= outcome.shape[0]:
+        return np.var(outcome)
+    return np.mean((outcome - reg_basis @ coefs)**2)
+
 class NotSampledError(ValueError, AttributeError):
     """Exception class to raise if attempting to predict from a model before it has been sampled.
 
-- 
2.43.0


From 13275b4501cd0c52d135f2458ebe1d2b9d78fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 39/96] fix: keep_gfr and keep_burnin work without such samples

---
 stochtree/bart.py | 10 +++++-----
 stochtree/bcf.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 4606b3c..c72b838 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -239,9 +239,13 @@ class BARTModel:
         self.forest_container.set_root_leaves(0, init_root)
         forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
 
+        # Indices of the samples of each kind
+        gfr_indices = np.arange(self.num_gfr)
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
+        mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
+
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the forest
                 forest_sampler.sample_one_iteration(
@@ -259,10 +263,6 @@ class BARTModel:
         
         # Run MCMC
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
-            if self.num_mcmc > 0:
-                mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
                 # Sample the forest
                 forest_sampler.sample_one_iteration(
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 342e620..686a7ce 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -639,9 +639,13 @@ class BCFModel:
             self.forest_container_tau.set_root_leaves(0, 0.)
         forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, True)
 
+        # Indices of the samples of each kind
+        gfr_indices = np.arange(self.num_gfr)
+        burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
+        mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
+
         # Run GFR (warm start) if specified
         if self.num_gfr > 0:
-            gfr_indices = np.arange(self.num_gfr)
             for i in range(self.num_gfr):
                 # Sample the prognostic forest
                 forest_sampler_mu.sample_one_iteration(
@@ -694,10 +698,6 @@ class BCFModel:
         
         # Run MCMC
         if self.num_burnin + self.num_mcmc > 0:
-            if self.num_burnin > 0:
-                burnin_indices = np.arange(self.num_gfr, self.num_gfr + self.num_burnin)
-            if self.num_mcmc > 0:
-                mcmc_indices = np.arange(self.num_gfr + self.num_burnin, self.num_gfr + self.num_burnin + self.num_mcmc)
             for i in range(self.num_gfr, self.num_samples):
                 # Sample the prognostic forest
                 forest_sampler_mu.sample_one_iteration(
-- 
2.43.0


From 4af37376959371f0a17885c979eb1e37d04d18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 40/96] fix: BARTModel.predict encodes covariates as at
 training

---
 stochtree/bart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index c72b838..83ef1d8 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -344,7 +344,7 @@ class BARTModel:
                 raise ValueError("covariates and basis must have the same number of rows")
 
         pred_dataset = Dataset()
-        pred_dataset.add_covariates(covariates)
+        pred_dataset.add_covariates(self._covariate_transformer.transform(covariates))
         if basis is not None:
             pred_dataset.add_basis(basis)
         pred_raw = self.forest_container.forest_container_cpp.Predict(pred_dataset.dataset_cpp)
-- 
2.43.0


From 35991825a1109f5991e0575da6458707397742cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 41/96] fix: fit BARTModel with a leaf basis of several columns

---
 stochtree/bart.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index 83ef1d8..a669fd0 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -180,7 +180,11 @@ class BARTModel:
         b_leaf = np.squeeze(np.var(resid_train)) / num_trees if b_leaf is None else b_leaf
         sigma_leaf = np.squeeze(np.var(resid_train)) / num_trees if sigma_leaf is None else sigma_leaf
         current_sigma2 = sigma2
-        current_leaf_scale = np.array([[sigma_leaf]])
+        current_leaf_scale = np.diagflat(np.repeat(sigma_leaf, max(self.num_basis, 1)))
+
+        # Sampling sigma_leaf will be ignored for multivariate leaf regressions
+        if sample_sigma_leaf and self.num_basis > 1:
+            sample_sigma_leaf = False
 
         # Container of variance parameter samples
         self.num_gfr = num_gfr
@@ -236,8 +240,8 @@ class BARTModel:
 
         # Initialize the leaves of each tree in the prognostic forest
         init_root = np.squeeze(np.mean(resid_train)) / num_trees
-        self.forest_container.set_root_leaves(0, init_root)
-        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, False, 0, True)
+        self.forest_container.set_root_leaves(0, np.repeat(init_root, self.num_basis) if self.num_basis > 1 else init_root)
+        forest_sampler.update_residual(forest_dataset_train, residual_train, self.forest_container, self.has_basis, 0, False)
 
         # Indices of the samples of each kind
         gfr_indices = np.arange(self.num_gfr)
-- 
2.43.0


From 4e4f32ca01211be858ed60f920c3e88c7bd0b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 42/96] fix: BCFModel honours kept and dropped variables of
 each forest

---
 stochtree/bcf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 686a7ce..7b4e465 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -340,7 +340,7 @@ class BCFModel:
                 if all(isinstance(i, str) for i in keep_vars_mu):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if keep_vars_mu.count(X_train.columns.array[i]) > 0]
                 elif all(isinstance(i, int) for i in keep_vars_mu):
                     if any(i >= X_train.shape[1] for i in keep_vars_mu):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -350,10 +350,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_mu, np.ndarray):
-                if keep_vars_mu.dtype == np.str_:
+                if keep_vars_mu.dtype.kind in ('U', 'O', 'T'):
                     if not np.all(np.isin(keep_vars_mu, X_train.columns)):
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
-                    variable_subset_mu = [i for i in X_train.shape[1] if keep_vars_mu.count(X_train.columns.array[i]) > 0]
+                    variable_subset_mu = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_mu]
                 else:
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
@@ -377,18 +377,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_mu must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_mu, np.ndarray):
-                if drop_vars_mu.dtype == np.str_:
+                if drop_vars_mu.dtype.kind in ('U', 'O', 'T'):
                     if not np.all(np.isin(drop_vars_mu, X_train.columns)):
                         raise ValueError("drop_vars_mu includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
                         raise ValueError("drop_vars_mu includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_mu)
-                    variable_subset_mu = [i for i in keep_inds]
+                    variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_mu must be a list or np.array")
         else:
@@ -408,10 +408,10 @@ class BCFModel:
                 else:
                     raise ValueError("keep_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(keep_vars_tau, np.ndarray):
-                if keep_vars_tau.dtype == np.str_:
+                if keep_vars_tau.dtype.kind in ('U', 'O', 'T'):
                     if not np.all(np.isin(keep_vars_tau, X_train.columns)):
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
-                    variable_subset_tau = [i for i in range(X_train.shape[1]) if keep_vars_tau.count(X_train.columns.array[i]) > 0]
+                    variable_subset_tau = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_tau]
                 else:
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
@@ -435,18 +435,18 @@ class BCFModel:
                 else:
                     raise ValueError("drop_vars_tau must be a list of variable names (str) or column indices (int)")
             elif isinstance(drop_vars_tau, np.ndarray):
-                if drop_vars_tau.dtype == np.str_:
+                if drop_vars_tau.dtype.kind in ('U', 'O', 'T'):
                     if not np.all(np.isin(drop_vars_tau, X_train.columns)):
                         raise ValueError("drop_vars_tau includes some variable names that are not in X_train")
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
                 else:
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
                         raise ValueError("drop_vars_tau includes some negative variable indices")
                     keep_inds = ~np.isin(np.arange(X_train.shape[1]), drop_vars_tau)
-                    variable_subset_tau = [i for i in keep_inds]
+                    variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
             else:
                 raise ValueError("drop_vars_tau must be a list or np.array")
         else:
@@ -530,10 +530,10 @@ class BCFModel:
         variable_weights = variable_weights[original_var_indices]*variable_weights_adj
 
         # Create mu and tau specific variable weights with weights zeroed out for excluded variables
-        variable_weights_tau = variable_weights
-        variable_weights_mu = variable_weights
+        variable_weights_tau = variable_weights.copy()
+        variable_weights_mu = variable_weights.copy()
         variable_weights_mu[[variable_subset_mu.count(i) == 0 for i in original_var_indices]] = 0
-        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] <- 0
+        variable_weights_tau[[variable_subset_tau.count(i) == 0 for i in original_var_indices]] = 0
         
         # Update covariates to include propensities if requested
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
-- 
2.43.0


From 648bc42c20e03cfe16dd4646a121fcf36dd57bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 43/96] fix: BCFModel estimates propensities with its seed, for
 test data, and accepts several

---
 stochtree/bcf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 7b4e465..2f588b1 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -485,14 +485,15 @@ class BCFModel:
 
         # Check if user has provided propensities that are needed in the model
         if pi_train is None and propensity_covariate != "none":
+            if self.multivariate_treatment:
+                raise ValueError("Propensities must be provided (via pi_train and / or pi_test parameters) or omitted by setting propensity_covariate = 'none' for multivariate treatments")
             self.bart_propensity_model = BARTModel()
             if self.has_test:
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
                 pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
             else:
-                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10)
+                self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=random_seed)
                 pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
             self.internal_propensity_model = True
         else:
@@ -539,7 +540,7 @@ class BCFModel:
         if propensity_covariate not in ["none", "mu", "tau", "both"]:
             raise ValueError("propensity_covariate must equal one of 'none', 'mu', 'tau', or 'both'")
         if propensity_covariate != "none":
-            feature_types = np.append(feature_types, 0).astype('int')
+            feature_types = np.append(feature_types, np.repeat(0, pi_train.shape[1])).astype('int')
             X_train_processed = np.c_[X_train_processed, pi_train]
             if self.has_test:
                 X_test_processed = np.c_[X_test_processed, pi_test]
-- 
2.43.0


From 21fa805743e1c3242effd55f942c1dd012e288ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 44/96] fix: BCFModel draws its coding parameters with its seed

---
 stochtree/bcf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 2f588b1..aa90330 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -611,6 +611,8 @@ class BCFModel:
             cpp_rng = RNG(-1)
         else:
             cpp_rng = RNG(random_seed)
+        if random_seed is not None and random_seed >= 0:
+            self.rng = np.random.default_rng(random_seed)
         
         # Sampling data structures
         forest_sampler_mu = ForestSampler(forest_dataset_train, feature_types, num_trees_mu, self.n_train, alpha_mu, beta_mu, min_samples_leaf_mu)
-- 
2.43.0


From 73e196922a830b1349e5b3ceba345708d5f837ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 45/96] fix: BCFModel leaves the given leaf scale as it was

---
 stochtree/bcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index aa90330..b3f2dfd 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -523,7 +523,7 @@ class BCFModel:
         if not isinstance(sigma_leaf_tau, np.ndarray):
             current_leaf_scale_tau = np.array([[sigma_leaf_tau]])
         else:
-            current_leaf_scale_tau = sigma_leaf_tau
+            current_leaf_scale_tau = sigma_leaf_tau.copy()
 
         # Update variable weights
         variable_counts = [original_var_indices.count(i) for i in original_var_indices]
-- 
2.43.0


From 66db485ad352a2de38c988852c2ab978b3d2579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 46/96] fix: BCFModel predictions encode covariates as at
 training

---
 stochtree/bcf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index b3f2dfd..7541d33 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -837,6 +837,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Covariate preprocessing
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
@@ -907,6 +910,9 @@ class BCFModel:
             if propensity.ndim == 1:
                 propensity = np.expand_dims(propensity, 1)
         
+        # Covariate preprocessing
+        X = self._covariate_transformer.transform(X)
+        
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
-- 
2.43.0


From 3d6e297022b501c8cccf46cbba5b48fff452474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 47/96] fix: BCFModel.predict_tau uses propensities the
 treatment forest was given

---
 stochtree/bcf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 7541d33..e6c0fd8 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -847,14 +847,14 @@ class BCFModel:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
         else:
-            if self.propensity_covariate == "tau":
+            if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
                     propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
         
         # Update covariates to include propensities if requested
-        if self.propensity_covariate == "tau":
+        if self.propensity_covariate in ["tau", "both"]:
             X_tau = np.c_[X, propensity]
         else:
             X_tau = X
-- 
2.43.0


From 4c538d17391e7eabfe1a0b46009daedbd68f1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 48/96] fix: BCFModel effects and outcomes have one value per
 row and sample

---
 stochtree/bcf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index e6c0fd8..30bbeb2 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -787,7 +787,8 @@ class BCFModel:
         if self.multivariate_treatment:
             treatment_term_train = np.multiply(np.atleast_3d(Z_train).swapaxes(1,2),self.tau_hat_train).sum(axis=2)
         else:
-            treatment_term_train = Z_train*np.squeeze(self.tau_hat_train)
+            self.tau_hat_train = np.squeeze(self.tau_hat_train, axis=2)
+            treatment_term_train = Z_train*self.tau_hat_train
         self.y_hat_train = self.mu_hat_train + treatment_term_train
         if self.has_test:
             mu_raw_test = self.forest_container_mu.forest_container_cpp.Predict(forest_dataset_test.dataset_cpp)
@@ -801,7 +802,8 @@ class BCFModel:
             if self.multivariate_treatment:
                 treatment_term_test = np.multiply(np.atleast_3d(Z_test).swapaxes(1,2),self.tau_hat_test).sum(axis=2)
             else:
-                treatment_term_test = Z_test*np.squeeze(self.tau_hat_test)
+                self.tau_hat_test = np.squeeze(self.tau_hat_test, axis=2)
+                treatment_term_test = Z_test*self.tau_hat_test
             self.y_hat_test = self.mu_hat_test + treatment_term_test
     
     def predict_tau(self, X: np.array, Z: np.array, propensity: np.array = None) -> np.array:
@@ -870,6 +872,8 @@ class BCFModel:
         if self.adaptive_coding:
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_x = tau_raw[:,self.keep_indices]
+        if not self.multivariate_treatment:
+            tau_x = np.squeeze(tau_x, axis=2)
 
         # Return result matrices as a tuple
         return tau_x
@@ -961,7 +965,11 @@ class BCFModel:
         tau_x = tau_raw[:,self.keep_indices]
 
         # Outcome predictions
-        yhat_x = mu_x + Z*tau_x
+        if self.multivariate_treatment:
+            yhat_x = mu_x + np.multiply(np.atleast_3d(Z).swapaxes(1,2),tau_x).sum(axis=2)
+        else:
+            tau_x = np.squeeze(tau_x, axis=2)
+            yhat_x = mu_x + Z*tau_x
 
         # Return result matrices as a tuple
         return (tau_x, mu_x, yhat_x)
-- 
2.43.0


From ccdc2d8785bfdf516fabd90bf4fee3201385f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 49/96] fix: BCFModel predictions include the coded treatment
 of the control group

---
 stochtree/bcf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 30bbeb2..c4e1e90 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -781,6 +781,8 @@ class BCFModel:
         tau_raw_train = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_train.dataset_cpp)
         self.tau_hat_train = tau_raw_train[:,self.keep_indices]
         if self.adaptive_coding:
+            # The part of the coded treatment that does not depend on Z belongs to the prognostic function
+            self.mu_hat_train = self.mu_hat_train + np.squeeze(self.tau_hat_train, axis=2)*self.b0_samples[self.keep_indices]*self.y_std
             adaptive_coding_weights = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
             self.tau_hat_train = self.tau_hat_train*adaptive_coding_weights
         self.tau_hat_train = self.tau_hat_train*self.y_std
@@ -796,6 +798,7 @@ class BCFModel:
             tau_raw_test = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_test.dataset_cpp)
             self.tau_hat_test = tau_raw_test[:,self.keep_indices]
             if self.adaptive_coding:
+                self.mu_hat_test = self.mu_hat_test + np.squeeze(self.tau_hat_test, axis=2)*self.b0_samples[self.keep_indices]*self.y_std
                 adaptive_coding_weights_test = np.expand_dims(self.b1_samples[self.keep_indices] - self.b0_samples[self.keep_indices], axis=(0,2))
                 self.tau_hat_test = self.tau_hat_test*adaptive_coding_weights_test
             self.tau_hat_test = self.tau_hat_test*self.y_std
@@ -960,6 +963,7 @@ class BCFModel:
         # Estimate treatment effect
         tau_raw = self.forest_container_tau.forest_container_cpp.PredictRaw(forest_dataset_tau.dataset_cpp)
         if self.adaptive_coding:
+            mu_x = mu_x + np.squeeze(tau_raw[:,self.keep_indices], axis=2)*self.b0_samples[self.keep_indices]*self.y_std
             tau_raw = tau_raw*np.expand_dims(self.b1_samples - self.b0_samples, axis=(0,2))
         tau_raw = tau_raw*self.y_std
         tau_x = tau_raw[:,self.keep_indices]
-- 
2.43.0


From af0cf6b4374896d3e0fa596968b986e8bd3bcf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 50/96] fix: BCFModel residuals follow the treatment coding

---
 stochtree/bcf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index c4e1e90..909001e 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -633,14 +633,14 @@ class BCFModel:
         # Initialize the leaves of each tree in the prognostic forest
         init_mu = np.squeeze(np.mean(resid_train)) / num_trees_mu
         self.forest_container_mu.set_root_leaves(0, init_mu)
-        forest_sampler_mu.update_residual(forest_dataset_train, residual_train, self.forest_container_mu, False, 0, True)
+        forest_sampler_mu.update_residual(forest_dataset_train, residual_train, self.forest_container_mu, False, 0, False)
 
         # Initialize the leaves of each tree in the treatment forest
         if self.multivariate_treatment:
             self.forest_container_tau.set_root_leaves(0, np.zeros(self.treatment_dim))
         else:
             self.forest_container_tau.set_root_leaves(0, 0.)
-        forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, True)
+        forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, 0, False)
 
         # Indices of the samples of each kind
         gfr_indices = np.arange(self.num_gfr)
@@ -692,7 +692,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Replace the treatment term of the residual by the one with the new coding
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
@@ -744,7 +747,10 @@ class BCFModel:
                     current_b_1 = self.rng.normal(loc = (s_ty1/(s_tt1 + 2*current_sigma2)), 
                                              scale = np.sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)), size = 1)
                     tau_basis_train = (1-np.squeeze(Z_train))*current_b_0 + np.squeeze(Z_train)*current_b_1
+                    # Replace the treatment term of the residual by the one with the new coding
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, True)
                     forest_dataset_train.update_basis(tau_basis_train)
+                    forest_sampler_tau.update_residual(forest_dataset_train, residual_train, self.forest_container_tau, True, i, False)
                     if self.has_test:
                         tau_basis_test = (1-np.squeeze(Z_test))*current_b_0 + np.squeeze(Z_test)*current_b_1
                         forest_dataset_test.update_basis(tau_basis_test)
-- 
2.43.0


From 73e7451e4ef080332031d27845e783c31c6863d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 51/96] fix: refuse a leaf scale whose size does not match the
 leaves

---
 include/stochtree/leaf_model.h   | 6 ++++++
 include/stochtree/tree_sampler.h | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/stochtree/leaf_model.h b/include/stochtree/leaf_model.h
index 3ea7a8b..06a449b 100644
--- a/include/stochtree/leaf_model.h
+++ b/include/stochtree/leaf_model.h
@@ -81,6 +81,8 @@ class GaussianConstantLeafModel {
   void SetEnsembleRootPredictedValue(ForestDataset& dataset, TreeEnsemble* ensemble, double root_pred_value);
   void SetScale(double tau) {tau_ = tau;}
   inline bool RequiresBasis() {return false;}
+  /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
+  inline bool ScaleMatchesDimension(int output_dimension) {return output_dimension == 1;}
  private:
   double tau_;
   UnivariateNormalSampler normal_sampler_;
@@ -147,6 +149,8 @@ class GaussianUnivariateRegressionLeafModel {
   void SetEnsembleRootPredictedValue(ForestDataset& dataset, TreeEnsemble* ensemble, double root_pred_value);
   void SetScale(double tau) {tau_ = tau;}
   inline bool RequiresBasis() {return true;}
+  /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
+  inline bool ScaleMatchesDimension(int output_dimension) {return output_dimension == 1;}
  private:
   double tau_;
   UnivariateNormalSampler normal_sampler_;
@@ -215,6 +219,8 @@ class GaussianMultivariateRegressionLeafModel {
   void SetEnsembleRootPredictedValue(ForestDataset& dataset, TreeEnsemble* ensemble, double root_pred_value);
   void SetScale(Eigen::MatrixXd& Sigma_0) {Sigma_0_ = Sigma_0;}
   inline bool RequiresBasis() {return true;}
+  /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
+  inline bool ScaleMatchesDimension(int output_dimension) {return (Sigma_0_.rows() == output_dimension) && (Sigma_0_.cols() == output_dimension);}
  private:
   Eigen::MatrixXd Sigma_0_;
   MultivariateNormalSampler multivariate_normal_sampler_;
diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 01e3acb..889a90f 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -173,6 +173,7 @@ class MCMCForestSampler {
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, bool pre_initialized = false) {
     CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+    CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
 
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
@@ -452,6 +453,7 @@ class GFRForestSampler {
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
     CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+    CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
     CHECK_EQ(feature_types.size(), dataset.NumCovariates());
     CHECK_GT(cutpoint_grid_size_, 0);
 
-- 
2.43.0


From 9e61ccaa4d5ddf350cf68b4583d3968b8d12761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 52/96] fix: adjust a residual by the predictions of the given
 forest

---
 include/stochtree/tree_sampler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 889a90f..e5e5155 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -120,7 +120,8 @@ static inline void UpdateResidualEntireForest(ForestTracker& tracker, ForestData
     pred_value = 0.;
     for (int j = 0; j < forest->NumTrees(); j++) {
       Tree* tree = forest->GetTree(j);
-      leaf_pred = tracker.GetNodeId(i, j);
+      // The forest need not be the one whose partition the tracker stores
+      leaf_pred = EvaluateTree(*tree, dataset.GetCovariates(), i);
       if (requires_basis) {
         tree_pred = tree->PredictFromNode(leaf_pred, dataset.GetBasis(), i);
       } else {
-- 
2.43.0


From 59bcbe6f67b4ce39c7413bf394319cd0c0a57093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 53/96] fix: refuse to transform an array with the encoding of
 a table

---
 stochtree/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 286b291..e921013 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -214,6 +214,8 @@ class CovariateTransformer:
             raise ValueError("Covariates passed as a numpy array must be 1d or 2d")
         if self._num_original_features != covariates.shape[1]:
             raise ValueError("Attempting to call transform from a CovariateTransformer that was fit on a dataset with different dimensionality")
+        if any(feature_type in ("category", "string", "unsupported") for feature_type in self._original_feature_types):
+            raise ValueError("Attempting to transform a np.array with a CovariateTransformer that was fit on a pd.DataFrame with categorical or unsupported columns")
         self._original_feature_indices = [i for i in range(covariates.shape[1])]
         return covariates
 
-- 
2.43.0


From 1df5a9992dcdae6b451800bee899090e23f5dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 54/96] fix: ignore sparse columns as announced

---
 stochtree/preprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index e921013..5c7674a 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -96,7 +96,9 @@ class CovariateTransformer:
         
         for i in range(covariates.shape[1]):
             covariate = covariates.iloc[:,i]
-            if categorical_types.iloc[i]:
+            if sparse_types.iloc[i]:
+                self._original_feature_types[i] = "unsupported"
+            elif categorical_types.iloc[i]:
                 self._original_feature_types[i] = "category"
                 if covariate.array.ordered:
                     ord_index = self._process_ordered_categorical(covariate)
-- 
2.43.0


From 607399636bf8267ba594d6491a6be3f94d96ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 55/96] fix: estimate a row's propensity in the same way
 whatever other rows accompany it

---
 stochtree/bcf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 909001e..0118dbe 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -15,6 +15,10 @@ from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
 from .utils import NotSampledError, residual_variance
 
+def mean_propensity(propensity_samples: np.array) -> np.array:
+    """Average of propensity samples for every row, summed in the same order however many rows there are"""
+    return np.mean(np.ascontiguousarray(propensity_samples), axis=1, keepdims=True)
+
 class BCFModel:
     """Class that handles sampling, storage, and serialization of causal BART models like BCF, XBCF, and Warm-Start BCF
     """
@@ -490,11 +494,11 @@ class BCFModel:
             self.bart_propensity_model = BARTModel()
             if self.has_test:
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, X_test=X_test_processed, num_gfr=10, num_mcmc=10, random_seed=random_seed)
-                pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
-                pi_test = np.mean(self.bart_propensity_model.y_hat_test, axis = 1, keepdims = True)
+                pi_train = mean_propensity(self.bart_propensity_model.y_hat_train)
+                pi_test = mean_propensity(self.bart_propensity_model.y_hat_test)
             else:
                 self.bart_propensity_model.sample(X_train=X_train_processed, y_train=Z_train, num_gfr=10, num_mcmc=10, random_seed=random_seed)
-                pi_train = np.mean(self.bart_propensity_model.y_hat_train, axis = 1, keepdims = True)
+                pi_train = mean_propensity(self.bart_propensity_model.y_hat_train)
             self.internal_propensity_model = True
         else:
             self.internal_propensity_model = False
@@ -862,7 +866,7 @@ class BCFModel:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
-                    propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
+                    propensity = mean_propensity(self.bart_propensity_model.predict(X))
         
         # Update covariates to include propensities if requested
         if self.propensity_covariate in ["tau", "both"]:
@@ -937,7 +941,7 @@ class BCFModel:
                 if not self.internal_propensity_model:
                     raise ValueError("Propensity scores not provided, but no propensity model was trained during sampling")
                 else:
-                    propensity = np.mean(self.bart_propensity_model.predict(X), axis=1, keepdims=True)
+                    propensity = mean_propensity(self.bart_propensity_model.predict(X))
         
         # Update covariates to include propensities if requested
         if self.propensity_covariate == "mu":
-- 
2.43.0


From a7641bd5ab71aa631666cf751ebe54744bb2163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 56/96] fix: predict.bartmodel reads the group labels of its
 own model

---
 R/bart.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index c9c9e05..08e460b 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -574,7 +574,7 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
     if (!is.null(group_ids_test)) {
-        rfx_unique_group_ids <- bcf$rfx_unique_group_ids
+        rfx_unique_group_ids <- bart$rfx_unique_group_ids
         group_ids_factor_test <- factor(group_ids_test, levels = rfx_unique_group_ids)
         if (sum(is.na(group_ids_factor_test)) > 0) {
             stop("All random effect group labels provided in group_ids_test must be present in group_ids_train")
-- 
2.43.0


From 7af185d2392179aa48377c9552c75940e9f25d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 57/96] fix: intercept-only random effects accept a test set

---
 R/bart.R | 2 +-
 R/bcf.R  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 08e460b..e67d60a 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -191,7 +191,7 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
diff --git a/R/bcf.R b/R/bcf.R
index 3425e96..d2c3e15 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -331,7 +331,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     if (has_rfx_test) {
         if (is.null(rfx_basis_test)) {
-            if (!is.null(rfx_basis_train)) {
+            if (has_basis_rfx) {
                 stop("Random effects basis provided for training set, must also be provided for the test set")
             }
             rfx_basis_test <- matrix(rep(1,nrow(X_test)), nrow = nrow(X_test), ncol = 1)
-- 
2.43.0


From 9351fedc2bc2c85d0d4ab40bbaa3fac5e42958c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 58/96] fix: bcf accepts intercept-only random effects and any
 prior variance for them

---
 R/bcf.R | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index d2c3e15..1110ec7 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -296,16 +296,6 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
 
-    # Random effects covariance prior
-    if (has_rfx) {
-        if (is.null(rfx_prior_var)) {
-            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
-        } else {
-            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
-            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
-        }
-    }
-    
     # Update variable weights
     variable_weights_adj <- 1/sapply(original_var_indices, function(x) sum(original_var_indices == x))
     variable_weights <- variable_weights[original_var_indices]*variable_weights_adj
@@ -338,6 +328,16 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
     }
     
+    # Random effects covariance prior
+    if (has_rfx) {
+        if (is.null(rfx_prior_var)) {
+            rfx_prior_var <- rep(1, ncol(rfx_basis_train))
+        } else {
+            if ((!is.integer(rfx_prior_var)) && (!is.numeric(rfx_prior_var))) stop("rfx_prior_var must be a numeric vector")
+            if (length(rfx_prior_var) != ncol(rfx_basis_train)) stop("length(rfx_prior_var) must equal ncol(rfx_basis_train)")
+        }
+    }
+    
     # Check that number of samples are all nonnegative
     stopifnot(num_gfr >= 0)
     stopifnot(num_burnin >= 0)
@@ -442,7 +442,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             xi_init[,i] <- unname(coef(rfx_group_model))
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
-        sigma_xi_init <- diag(rfx_prior_var)
+        sigma_xi_init <- diag(rfx_prior_var, num_rfx_components, num_rfx_components)
         sigma_xi_shape <- 1
         sigma_xi_scale <- 1
     }
-- 
2.43.0


From 59beb8b3e42dea3a781dddc6b945179257275d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 59/96] fix: bcf starts the random effects of small groups at
 finite values

---
 R/bcf.R | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 1110ec7..134a26d 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -436,10 +436,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         xi_init <- matrix(0,num_rfx_components,num_rfx_groups)
         for (i in 1:num_rfx_groups) {
             group_subset_indices <- group_ids_train == i
-            basis_group <- rfx_basis_train[group_subset_indices,]
+            basis_group <- rfx_basis_train[group_subset_indices,,drop=F]
             resid_group <- resid_train[group_subset_indices]
             rfx_group_model <- lm(resid_group ~ 0+basis_group)
-            xi_init[,i] <- unname(coef(rfx_group_model))
+            xi_group <- unname(coef(rfx_group_model))
+            # Coefficients that the group's data do not identify start at 0
+            xi_group[is.na(xi_group)] <- 0
+            xi_init[,i] <- xi_group
         }
         sigma_alpha_init <- diag(1,num_rfx_components,num_rfx_components)
         sigma_xi_init <- diag(rfx_prior_var, num_rfx_components, num_rfx_components)
-- 
2.43.0


From 6123c8e819c37e794ca8aed62783be6111723eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 60/96] fix: predictions stay matrices for a single row or
 sample

---
 R/bart.R | 12 ++++++------
 R/bcf.R  | 24 ++++++++++++------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index e67d60a..e324fc7 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -421,14 +421,14 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     }
     
     # Subset forest and RFX predictions
-    y_hat_train <- y_hat_train[,keep_indices]
+    y_hat_train <- y_hat_train[,keep_indices,drop=F]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=F]
     }
     if (has_test) {
-        y_hat_test <- y_hat_test[,keep_indices]
+        y_hat_test <- y_hat_test[,keep_indices,drop=F]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=F]
         }
     }
     
@@ -605,8 +605,8 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bart$keep_indices
-        forest_predictions <- forest_predictions[,keep_indices]
-        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        forest_predictions <- forest_predictions[,keep_indices,drop=F]
+        if (bart$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=F]
     }
     
     if (bart$model_params$has_rfx) {
diff --git a/R/bcf.R b/R/bcf.R
index 134a26d..5b0cb43 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -752,18 +752,18 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     
     # Subset forest and RFX predictions
-    mu_hat_train <- mu_hat_train[,keep_indices]
-    tau_hat_train <- tau_hat_train[,keep_indices]
-    y_hat_train <- y_hat_train[,keep_indices]
+    mu_hat_train <- mu_hat_train[,keep_indices,drop=F]
+    tau_hat_train <- tau_hat_train[,keep_indices,drop=F]
+    y_hat_train <- y_hat_train[,keep_indices,drop=F]
     if (has_rfx) {
-        rfx_preds_train <- rfx_preds_train[,keep_indices]
+        rfx_preds_train <- rfx_preds_train[,keep_indices,drop=F]
     }
     if (has_test) {
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=F]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=F]
+        y_hat_test <- y_hat_test[,keep_indices,drop=F]
         if (has_rfx_test) {
-            rfx_preds_test <- rfx_preds_test[,keep_indices]
+            rfx_preds_test <- rfx_preds_test[,keep_indices,drop=F]
         }
     }
     
@@ -1000,10 +1000,10 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     # Restrict predictions to the "retained" samples (if applicable)
     if (!predict_all) {
         keep_indices = bcf$keep_indices
-        mu_hat_test <- mu_hat_test[,keep_indices]
-        tau_hat_test <- tau_hat_test[,keep_indices]
-        y_hat_test <- y_hat_test[,keep_indices]
-        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices]
+        mu_hat_test <- mu_hat_test[,keep_indices,drop=F]
+        tau_hat_test <- tau_hat_test[,keep_indices,drop=F]
+        y_hat_test <- y_hat_test[,keep_indices,drop=F]
+        if (bcf$model_params$has_rfx) rfx_predictions <- rfx_predictions[,keep_indices,drop=F]
     }
     
     if (bcf$model_params$has_rfx) {
-- 
2.43.0


From 609838049b611633a2f431c17cf39a95d9116fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 61/96] fix: keep_gfr and keep_burnin work without such samples
 in R

---
 R/bart.R | 9 +++++++--
 R/bcf.R  | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index e324fc7..de9036a 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -86,6 +86,11 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
                  num_mcmc = 100, sample_sigma = T, sample_tau = T, 
                  random_seed = -1, keep_burnin = F, keep_gfr = F, 
                  verbose = F){
+    # Check that number of samples are all nonnegative
+    stopifnot(num_gfr >= 0)
+    stopifnot(num_burnin >= 0)
+    stopifnot(num_mcmc >= 0)
+
     # Variable weight preprocessing (and initialization if necessary)
     if (is.null(variable_weights)) {
         variable_weights = rep(1/ncol(X_train), ncol(X_train))
@@ -402,8 +407,8 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
diff --git a/R/bcf.R b/R/bcf.R
index 5b0cb43..589a151 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -733,8 +733,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Compute retention indices
     if (num_mcmc > 0) {
         keep_indices = mcmc_indices
-        if (keep_gfr) keep_indices <- c(gfr_indices, keep_indices)
-        if (keep_burnin) keep_indices <- c(burnin_indices, keep_indices)
+        if (keep_gfr && (num_gfr > 0)) keep_indices <- c(gfr_indices, keep_indices)
+        if (keep_burnin && (num_burnin > 0)) keep_indices <- c(burnin_indices, keep_indices)
     } else {
         if ((num_gfr > 0) && (num_burnin > 0)) {
             # Override keep_gfr = FALSE since there are no MCMC samples
-- 
2.43.0


From 8ebcf477db88220d991a5b407eae7d8cb789dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 62/96] fix: calibrate the error variance of R models with q
 and for any covariates

---
 R/bart.R | 10 +++++++---
 R/bcf.R  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index de9036a..8c0232d 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -220,9 +220,13 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     resid_train <- (y_train-y_bar_train)/y_std_train
 
     # Calibrate priors for sigma^2 and tau
-    reg_basis <- cbind(W_train, X_train)
-    sigma2hat <- (sigma(lm(resid_train~reg_basis)))^2
-    quantile_cutoff <- 0.9
+    if (is.null(lambda) || is.null(sigma2_init)) {
+        reg_model <- lm(resid_train~cbind(W_train, X_train))
+        # Without residual degrees of freedom, the regression says nothing about the error variance
+        if (df.residual(reg_model) > 0) sigma2hat <- (sigma(reg_model))^2
+        else sigma2hat <- var(as.numeric(resid_train))
+    }
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
diff --git a/R/bcf.R b/R/bcf.R
index 589a151..0fc08c6 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -410,9 +410,13 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     resid_train <- (y_train-y_bar_train)/y_std_train
     
     # Calibrate priors for global sigma^2 and sigma_leaf_mu / sigma_leaf_tau
-    reg_basis <- X_train
-    sigma2hat <- mean(resid(lm(resid_train~reg_basis))^2)
-    quantile_cutoff <- 0.9
+    if (is.null(lambda) || is.null(sigma2)) {
+        reg_model <- lm(resid_train~X_train)
+        # Without residual degrees of freedom, the regression says nothing about the error variance
+        if (df.residual(reg_model) > 0) sigma2hat <- mean(resid(reg_model)^2)
+        else sigma2hat <- var(as.numeric(resid_train))
+    }
+    quantile_cutoff <- q
     if (is.null(lambda)) {
         lambda <- (sigma2hat*qgamma(1-quantile_cutoff,nu))/nu
     }
-- 
2.43.0


From ed1c1403b7ee18e48328bf3b225ceeaeae97068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 63/96] fix: bart fits leaf bases of several columns

---
 R/bart.R | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/R/bart.R b/R/bart.R
index 8c0232d..5d0e9eb 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -233,7 +233,6 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     if (is.null(sigma2_init)) sigma2_init <- sigma2hat
     if (is.null(b_leaf)) b_leaf <- var(resid_train)/(2*num_trees)
     if (is.null(tau_init)) tau_init <- var(resid_train)/(num_trees)
-    current_leaf_scale <- as.matrix(tau_init)
     current_sigma2 <- sigma2_init
     
     # Determine leaf model type
@@ -264,6 +263,13 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
         }
     }
     
+    # Scale of the leaf node parameters (a covariance matrix in the multivariate case)
+    if ((leaf_model == 2) && (length(tau_init) == 1)) {
+        current_leaf_scale <- diag(as.numeric(tau_init), output_dimension, output_dimension)
+    } else {
+        current_leaf_scale <- as.matrix(tau_init)
+    }
+    
     # Data
     if (leaf_regression) {
         forest_dataset_train <- createForestDataset(X_train, W_train)
-- 
2.43.0


From 4d335fcd355d3037c7b2207311cf2c2aec876f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 64/96] fix: one-hot encode R columns with a single or missing
 category

---
 R/utils.R | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index 7afffe2..a0ebdf0 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -562,7 +562,7 @@ oneHotInitializeAndEncode <- function(x_input) {
     if (is.factor(x_input) && is.ordered(x_input)) warning("One-hot encoding an ordered categorical variable")
     x_factor <- factor(x_input)
     unique_levels <- levels(x_factor)
-    Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
+    Xtilde <- oneHotEncode(x_input, unique_levels)
     output <- list(Xtilde = Xtilde, unique_levels = unique_levels)
     return(output)
 }
@@ -594,20 +594,10 @@ oneHotEncode <- function(x_input, unique_levels) {
     stopifnot((is.null(dim(x_input)) && length(x_input) > 0))
     stopifnot((is.null(dim(unique_levels)) && length(unique_levels) > 0))
     num_unique_levels <- length(unique_levels)
-    in_sample <- x_input %in% unique_levels
-    out_of_sample <- !(x_input %in% unique_levels)
-    has_out_of_sample <- sum(out_of_sample) > 0
-    if (has_out_of_sample) {
-        x_factor_insample <- factor(x_input[in_sample], levels = unique_levels)
-        Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
-        Xtilde_insample <- cbind(unname(model.matrix(~0+x_factor_insample)), 0)
-        Xtilde_out_of_sample <- cbind(matrix(0, nrow=sum(out_of_sample), ncol=num_unique_levels), 1)
-        Xtilde[in_sample,] <- Xtilde_insample
-        Xtilde[out_of_sample,] <- Xtilde_out_of_sample
-    } else {
-        x_factor <- factor(x_input, levels = unique_levels)
-        Xtilde <- cbind(unname(model.matrix(~0+x_factor)), 0)
-    }
+    # Column of each observation's level, with unseen levels in the last column
+    column_num <- match(as.character(x_input), unique_levels, nomatch = num_unique_levels + 1)
+    Xtilde <- matrix(0, nrow = length(x_input), ncol = num_unique_levels + 1)
+    Xtilde[cbind(seq_along(column_num), column_num)] <- 1
     return(Xtilde)
 }
 
-- 
2.43.0


From 80e69079089fd5af85c22a27790db920da800934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 65/96] fix: integer matrices of covariates are accepted and
 described by one name per column

---
 R/utils.R | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/R/utils.R b/R/utils.R
index a0ebdf0..7bc75b5 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -81,16 +81,19 @@ preprocessTrainMatrix <- function(input_matrix) {
     }
     
     # Unpack metadata (assuming all variables are numeric)
-    names(input_matrix) <- paste0("x", 1:ncol(input_matrix))
-    df_vars <- names(input_matrix)
+    if (!is.numeric(input_matrix)) {
+        stop("covariates provided as a matrix must be numeric")
+    }
+    df_vars <- paste0("x", 1:ncol(input_matrix))
     num_ordered_cat_vars <- 0
     num_unordered_cat_vars <- 0
     num_numeric_vars <- ncol(input_matrix)
-    numeric_vars <- names(input_matrix)
+    numeric_vars <- df_vars
     feature_types <- rep(0, ncol(input_matrix))
 
     # Unpack data
     X <- input_matrix
+    storage.mode(X) <- "double"
 
     # Aggregate results into a list
     metadata <- list(
@@ -132,6 +135,11 @@ preprocessPredictionMatrix <- function(input_matrix, metadata) {
         stop("Prediction set covariates have inconsistent dimension from train set covariates")
     }
     
+    if (!is.numeric(input_matrix)) {
+        stop("covariates provided as a matrix must be numeric")
+    }
+    storage.mode(input_matrix) <- "double"
+    
     return(input_matrix)
 }
 
-- 
2.43.0


From 5eefe39d3726f6df2faa292937407310e54354f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 66/96] fix: refuse a matrix of covariates where the training
 data had categorical columns

---
 R/utils.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/utils.R b/R/utils.R
index 7bc75b5..35934c8 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -131,6 +131,9 @@ preprocessPredictionMatrix <- function(input_matrix, metadata) {
     if (!is.matrix(input_matrix)) {
         stop("covariates provided must be a matrix")
     }
+    if ((metadata$num_ordered_cat_vars > 0) || (metadata$num_unordered_cat_vars > 0)) {
+        stop("Covariates must be provided as a dataframe for models trained with categorical covariates")
+    }
     if (!(ncol(input_matrix) == metadata$num_numeric_vars)) {
         stop("Prediction set covariates have inconsistent dimension from train set covariates")
     }
-- 
2.43.0


From 8f4f26d98d195bea590f4932cdcd515891455d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 67/96] fix: bcf estimates propensities, and fits and predicts
 without them

---
 R/bcf.R | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 0fc08c6..f147ee0 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -371,27 +371,28 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     # Estimate if pre-estimated propensity score is not provided
     if ((is.null(pi_train)) && (propensity_covariate != "none")) {
         # Estimate using the last of several iterations of GFR BART
-        num_burnin <- 10
-        num_total <- 50
+        num_burnin_propensity <- 10
+        num_total_propensity <- 50
+        propensity_indices <- (num_burnin_propensity+1):num_total_propensity
         bart_model_propensity <- bart(X_train = X_train_raw, y_train = as.numeric(Z_train), X_test = X_test_raw, 
-                                      num_gfr = num_total, num_burnin = 0, num_mcmc = 0)
-        pi_train <- rowMeans(bart_model_propensity$y_hat_train[(num_burnin+1):num_total])
-        if (has_test) pi_test <- rowMeans(bart_model_propensity$y_hat_test[,(num_burnin+1):num_total])
+                                      num_gfr = num_total_propensity, num_burnin = 0, num_mcmc = 0, random_seed = random_seed)
+        pi_train <- as.matrix(rowMeans(bart_model_propensity$y_hat_train[,propensity_indices,drop=F]))
+        if (has_test) pi_test <- as.matrix(rowMeans(bart_model_propensity$y_hat_test[,propensity_indices,drop=F]))
     }
 
-    if (has_test) {
+    if (has_test && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
     }
     
     # Update feature_types and covariates
     if (propensity_covariate != "none") {
-        feature_types <- as.integer(c(feature_types,0))
+        feature_types <- c(feature_types, rep(0, ncol(pi_train)))
         X_train <- cbind(X_train, pi_train)
         if (propensity_covariate == "mu") {
             variable_weights_mu <- c(variable_weights_mu, rep(1./num_cov_orig, ncol(pi_train)))
-            variable_weights_tau <- c(variable_weights_tau, 0)
+            variable_weights_tau <- c(variable_weights_tau, rep(0, ncol(pi_train)))
         } else if (propensity_covariate == "tau") {
-            variable_weights_mu <- c(variable_weights_mu, 0)
+            variable_weights_mu <- c(variable_weights_mu, rep(0, ncol(pi_train)))
             variable_weights_tau <- c(variable_weights_tau, rep(1./num_cov_orig, ncol(pi_train)))
         } else if (propensity_covariate == "both") {
             variable_weights_mu <- c(variable_weights_mu, rep(1./num_cov_orig, ncol(pi_train)))
@@ -399,6 +400,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         }
         if (has_test) X_test <- cbind(X_test, pi_test)
     }
+    feature_types <- as.integer(feature_types)
     
     # Renormalize variable weights
     variable_weights_mu <- variable_weights_mu / sum(variable_weights_mu)
@@ -975,6 +977,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     } else if (bcf$model_params$propensity_covariate == "tau") {
         X_test_mu <- X_test
         X_test_tau <- cbind(X_test, pi_test)
+    } else {
+        X_test_mu <- X_test
+        X_test_tau <- X_test
     }
     
     # Create prediction datasets
-- 
2.43.0


From 98d8aba1eafeaefd80b10e853a3b980c836dbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 68/96] fix: predict.bcf accepts the categorical covariates of
 its model

---
 R/bcf.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/bcf.R b/R/bcf.R
index f147ee0..ecdff91 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -797,7 +797,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         "b_leaf_tau" = b_leaf_tau,
         "outcome_mean" = y_bar_train,
         "outcome_scale" = y_std_train, 
-        "num_covariates" = num_cov_orig,
+        "num_covariates" = length(original_var_indices),
         "num_prognostic_covariates" = sum(variable_weights_mu > 0),
         "num_treatment_covariates" = sum(variable_weights_tau > 0),
         "treatment_dim" = ncol(Z_train), 
-- 
2.43.0


From e67c401d61701932d84719381bea15c02574e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 69/96] fix: bcf residuals follow the treatment coding

---
 R/bcf.R | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index ecdff91..4d01c3d 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -577,17 +577,17 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 current_b_0 <- rnorm(1, (s_ty0/(s_tt0 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt0 + 2*current_sigma2)))
                 current_b_1 <- rnorm(1, (s_ty1/(s_tt1 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)))
                 
-                # Update basis for the leaf regression
+                # Update basis for the leaf regression, and the residual with it
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
             }
             
             # Sample variance parameters (if requested)
@@ -675,18 +675,17 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
                 current_b_0 <- rnorm(1, (s_ty0/(s_tt0 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt0 + 2*current_sigma2)))
                 current_b_1 <- rnorm(1, (s_ty1/(s_tt1 + 2*current_sigma2)), sqrt(current_sigma2/(s_tt1 + 2*current_sigma2)))
                 
-                # Update basis for the leaf regression
+                # Update basis for the leaf regression, and the residual with it
                 tau_basis_train <- (1-Z_train)*current_b_0 + Z_train*current_b_1
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, T)
                 forest_dataset_train$update_basis(tau_basis_train)
+                forest_samples_tau$update_residual(forest_dataset_train, outcome_train, forest_model_tau, T, i-1, F)
                 b_0_samples[i] <- current_b_0
                 b_1_samples[i] <- current_b_1
                 if (has_test) {
                     tau_basis_test <- (1-Z_test)*current_b_0 + Z_test*current_b_1
                     forest_dataset_test$update_basis(tau_basis_test)
                 }
-                
-                # TODO Update leaf predictions and residual
-                
             }
             
             # Sample variance parameters (if requested)
-- 
2.43.0


From 1567d93fe05364d0443eb7344a6f18048b739772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 70/96] fix: bcf predictions include the coded treatment of the
 control group

---
 R/bcf.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 4d01c3d..21bc068 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -709,6 +709,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     mu_hat_train <- forest_samples_mu$predict(forest_dataset_train)*y_std_train + y_bar_train
     if (adaptive_coding) {
         tau_hat_train_raw <- forest_samples_tau$predict_raw(forest_dataset_train)
+        # The part of the coded treatment that does not depend on Z belongs to the prognostic function
+        mu_hat_train <- mu_hat_train + t(t(tau_hat_train_raw) * b_0_samples)*y_std_train
         tau_hat_train <- t(t(tau_hat_train_raw) * (b_1_samples - b_0_samples))*y_std_train
     } else {
         tau_hat_train <- forest_samples_tau$predict_raw(forest_dataset_train)*y_std_train
@@ -718,6 +720,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
         mu_hat_test <- forest_samples_mu$predict(forest_dataset_test)*y_std_train + y_bar_train
         if (adaptive_coding) {
             tau_hat_test_raw <- forest_samples_tau$predict_raw(forest_dataset_test)
+            mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * b_0_samples)*y_std_train
             tau_hat_test <- t(t(tau_hat_test_raw) * (b_1_samples - b_0_samples))*y_std_train
         } else {
             tau_hat_test <- forest_samples_tau$predict_raw(forest_dataset_test)*y_std_train
@@ -991,6 +994,7 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     mu_hat_test <- bcf$forests_mu$predict(prediction_dataset_mu)*y_std + y_bar
     if (bcf$model_params$adaptive_coding) {
         tau_hat_test_raw <- bcf$forests_tau$predict_raw(prediction_dataset_tau)
+        mu_hat_test <- mu_hat_test + t(t(tau_hat_test_raw) * bcf$b_0_samples)*y_std
         tau_hat_test <- t(t(tau_hat_test_raw) * (bcf$b_1_samples - bcf$b_0_samples))*y_std
     } else {
         tau_hat_test <- bcf$forests_tau$predict_raw(prediction_dataset_tau)*y_std
-- 
2.43.0


From 91cb091249b7255cdceadfeb49315f9d105bc92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 71/96] fix: the R label mapping names each group

---
 R/random_effects.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/random_effects.R b/R/random_effects.R
index dbcdbbb..d4e2cbe 100644
--- a/R/random_effects.R
+++ b/R/random_effects.R
@@ -117,7 +117,7 @@ RandomEffectSamples <- R6::R6Class(
         extract_label_mapping = function() {
             keys_and_vals <- rfx_label_mapper_to_list_cpp(self$label_mapper_ptr)
             result <- as.list(keys_and_vals[[2]] + 1)
-            setNames(result, keys_and_vals[[1]])
+            names(result) <- keys_and_vals[[1]]
             return(result)
         }
     )
-- 
2.43.0


From 152269e01162984b191474207feb0c8dc938142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 72/96] fix: random effect samples on the outcome scale satisfy
 beta = alpha * xi

---
 R/bart.R | 3 +--
 R/bcf.R  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index 5d0e9eb..c491f93 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -694,10 +694,9 @@ getRandomEffectSamples.bartmodel <- function(object, ...){
     # Extract the samples
     result <- object$rfx_samples$extract_parameter_samples()
     
-    # Scale by sd(y_train)
+    # Scale by sd(y_train), so that beta remains the product of alpha and xi
     result$beta_samples <- result$beta_samples*object$model_params$outcome_scale
     result$xi_samples <- result$xi_samples*object$model_params$outcome_scale
-    result$alpha_samples <- result$alpha_samples*object$model_params$outcome_scale
     result$sigma_samples <- result$sigma_samples*(object$model_params$outcome_scale^2)
     
     return(result)
diff --git a/R/bcf.R b/R/bcf.R
index 21bc068..86ddbfc 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -1114,10 +1114,9 @@ getRandomEffectSamples.bcf <- function(object, ...){
     # Extract the samples
     result <- object$rfx_samples$extract_parameter_samples()
     
-    # Scale by sd(y_train)
+    # Scale by sd(y_train), so that beta remains the product of alpha and xi
     result$beta_samples <- result$beta_samples*object$model_params$outcome_scale
     result$xi_samples <- result$xi_samples*object$model_params$outcome_scale
-    result$alpha_samples <- result$alpha_samples*object$model_params$outcome_scale
     result$sigma_samples <- result$sigma_samples*(object$model_params$outcome_scale^2)
     
     return(result)
-- 
2.43.0


From 64150bb8ea14a57099a86a542235ff34f23fe91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 73/96] fix: kernels and leaf indices of a bart model accept
 its covariates, with or without a test set

---
 R/kernel.R | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/R/kernel.R b/R/kernel.R
index 5b19908..6af2b9e 100644
--- a/R/kernel.R
+++ b/R/kernel.R
@@ -145,19 +145,13 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
     stopifnot(class(bart_model)=="bartmodel")
     
     # Preprocess covariates
-    if (!is.data.frame(X_train)) {
-        stop("X_train must be a dataframe")
-    }
-    if (!is.data.frame(X_test)) {
-        stop("X_test must be a dataframe")
-    }
     train_set_metadata <- bart_model$train_set_metadata
-    X_train <- preprocessPredictionDataFrame(X_train, train_set_metadata)
-    X_test <- preprocessPredictionDataFrame(X_test, train_set_metadata)
+    X_train <- preprocessPredictionData(X_train, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
     # Data checks
     stopifnot(bart_model$model_params$num_covariates == ncol(X_train))
-    stopifnot(bart_model$model_params$num_covariates == ncol(X_test))
+    stopifnot(is.null(X_test) || (bart_model$model_params$num_covariates == ncol(X_test)))
 
     # Initialize and compute kernel
     forest_kernel <- createForestKernel()
@@ -201,6 +195,13 @@ computeForestKernels <- function(bart_model, X_train, X_test=NULL, forest_num=NU
 #' @export
 computeForestLeafIndices <- function(bart_model, X_train, X_test=NULL, forest_num=NULL) {
     stopifnot(class(bart_model)=="bartmodel")
+    
+    # Preprocess covariates
+    train_set_metadata <- bart_model$train_set_metadata
+    X_train <- preprocessPredictionData(X_train, train_set_metadata)
+    if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, train_set_metadata)
+    
+    # Initialize and compute leaf indices
     forest_kernel <- createForestKernel()
     num_samples <- bart_model$model_params$num_samples
     stopifnot(forest_num <= num_samples)
-- 
2.43.0


From c1e7fdde9d9fab314b1692dc99d1cc61e69fa038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 74/96] fix: loadScalarJson reads scalars

---
 R/serialization.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/serialization.R b/R/serialization.R
index eda655f..ead94f2 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -350,9 +350,9 @@ loadVectorJson <- function(json_object, json_vector_label, subfolder_name = NULL
 #' @export
 loadScalarJson <- function(json_object, json_scalar_label, subfolder_name = NULL) {
     if (is.null(subfolder_name)) {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     } else {
-        output <- json_object$get_vector(json_scalar_label, subfolder_name)
+        output <- json_object$get_scalar(json_scalar_label, subfolder_name)
     }
     return(output)
 }
-- 
2.43.0


From a1566d555de45c2260e3b328992373586f77ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 75/96] fix: CppJson lists may hold integer vectors

---
 R/serialization.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/serialization.R b/R/serialization.R
index ead94f2..bab17fa 100644
--- a/R/serialization.R
+++ b/R/serialization.R
@@ -148,7 +148,7 @@ CppJson <- R6::R6Class(
             list_names <- names(field_list)
             for (i in 1:length(field_list)) {
                 vec_name <- list_names[i]
-                vec <- field_list[[i]]
+                vec <- as.numeric(field_list[[i]])
                 json_add_vector_subfolder_cpp(self$json_ptr, field_name, vec_name, vec)
             }
         }, 
-- 
2.43.0


From e699b0aed0d40380ece28feb8c3166009accedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 76/96] fix: a vector can replace an entry of another kind in R
 json

---
 src/serialization.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index f8c512b..99a67e0 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -76,7 +76,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -99,7 +99,7 @@ void json_add_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json> json_
 void json_add_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::doubles field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
@@ -116,7 +116,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
     int vec_length = field_vector.size();
     if (json_ptr->contains(subfolder_name)) {
         if (json_ptr->at(subfolder_name).contains(field_name)) {
-            json_ptr->at(subfolder_name).at(field_name).clear();
+            json_ptr->at(subfolder_name).at(field_name) = nlohmann::json::array();
             for (int i = 0; i < vec_length; i++) {
                 json_ptr->at(subfolder_name).at(field_name).emplace_back(field_vector.at(i));
             }
@@ -139,7 +139,7 @@ void json_add_string_vector_subfolder_cpp(cpp11::external_pointer<nlohmann::json
 void json_add_string_vector_cpp(cpp11::external_pointer<nlohmann::json> json_ptr, std::string field_name, cpp11::strings field_vector) {
     int vec_length = field_vector.size();
     if (json_ptr->contains(field_name)) {
-        json_ptr->at(field_name).clear();
+        json_ptr->at(field_name) = nlohmann::json::array();
         for (int i = 0; i < vec_length; i++) {
             json_ptr->at(field_name).emplace_back(field_vector.at(i));
         }
-- 
2.43.0


From b9a37957e59710e39d632d5d9e74f2a12e46dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 77/96] fix: refuse an unknown leaf model number in R

---
 src/sampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sampler.cpp b/src/sampler.cpp
index 3347e91..0bad730 100644
--- a/src/sampler.cpp
+++ b/src/sampler.cpp
@@ -34,6 +34,7 @@ void sample_gfr_one_iteration_cpp(cpp11::external_pointer<StochTree::ForestDatas
     if (leaf_model_int == 0) leaf_model_enum = ForestLeafModel::kConstant;
     else if (leaf_model_int == 1) leaf_model_enum = ForestLeafModel::kUnivariateRegression;
     else if (leaf_model_int == 2) leaf_model_enum = ForestLeafModel::kMultivariateRegression;
+    else cpp11::stop("Unknown leaf model number");
     
     // Unpack leaf model parameters
     double leaf_scale;
@@ -98,6 +99,7 @@ void sample_mcmc_one_iteration_cpp(cpp11::external_pointer<StochTree::ForestData
     if (leaf_model_int == 0) leaf_model_enum = ForestLeafModel::kConstant;
     else if (leaf_model_int == 1) leaf_model_enum = ForestLeafModel::kUnivariateRegression;
     else if (leaf_model_int == 2) leaf_model_enum = ForestLeafModel::kMultivariateRegression;
+    else cpp11::stop("Unknown leaf model number");
     
     // Unpack leaf model parameters
     double leaf_scale;
-- 
2.43.0


From 9fad116f74ee815ecd6ac7e5d8f3740c4da00836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 78/96] fix: R models accept integer bases and treatments and
 refuse factors

---
 R/bart.R  | 24 ++++++------------------
 R/bcf.R   | 36 +++++++++---------------------------
 R/utils.R | 12 ++++++++++++
 3 files changed, 27 insertions(+), 45 deletions(-)

diff --git a/R/bart.R b/R/bart.R
index c491f93..5004bbf 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -123,18 +123,10 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     variable_weights <- variable_weights[original_var_indices]*variable_weights_adj
     
     # Convert all input data to matrices if not already converted
-    if ((is.null(dim(W_train))) && (!is.null(W_train))) {
-        W_train <- as.matrix(W_train)
-    }
-    if ((is.null(dim(W_test))) && (!is.null(W_test))) {
-        W_test <- as.matrix(W_test)
-    }
-    if ((is.null(dim(rfx_basis_train))) && (!is.null(rfx_basis_train))) {
-        rfx_basis_train <- as.matrix(rfx_basis_train)
-    }
-    if ((is.null(dim(rfx_basis_test))) && (!is.null(rfx_basis_test))) {
-        rfx_basis_test <- as.matrix(rfx_basis_test)
-    }
+    if (!is.null(W_train)) W_train <- convertToNumericMatrix(W_train)
+    if (!is.null(W_test)) W_test <- convertToNumericMatrix(W_test)
+    if (!is.null(rfx_basis_train)) rfx_basis_train <- convertToNumericMatrix(rfx_basis_train)
+    if (!is.null(rfx_basis_test)) rfx_basis_test <- convertToNumericMatrix(rfx_basis_test)
     
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
@@ -559,12 +551,8 @@ predict.bartmodel <- function(bart, X_test, W_test = NULL, group_ids_test = NULL
     X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
     # Convert all input data to matrices if not already converted
-    if ((is.null(dim(W_test))) && (!is.null(W_test))) {
-        W_test <- as.matrix(W_test)
-    }
-    if ((is.null(dim(rfx_basis_test))) && (!is.null(rfx_basis_test))) {
-        rfx_basis_test <- as.matrix(rfx_basis_test)
-    }
+    if (!is.null(W_test)) W_test <- convertToNumericMatrix(W_test)
+    if (!is.null(rfx_basis_test)) rfx_basis_test <- convertToNumericMatrix(rfx_basis_test)
     
     # Data checks
     if ((bart$model_params$requires_basis) && (is.null(W_test))) {
diff --git a/R/bcf.R b/R/bcf.R
index 86ddbfc..b5761c7 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -220,24 +220,12 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     if (!is.null(X_test)) X_test <- preprocessPredictionData(X_test, X_train_metadata)
     
     # Convert all input data to matrices if not already converted
-    if ((is.null(dim(Z_train))) && (!is.null(Z_train))) {
-        Z_train <- as.matrix(as.numeric(Z_train))
-    }
-    if ((is.null(dim(pi_train))) && (!is.null(pi_train))) {
-        pi_train <- as.matrix(pi_train)
-    }
-    if ((is.null(dim(Z_test))) && (!is.null(Z_test))) {
-        Z_test <- as.matrix(as.numeric(Z_test))
-    }
-    if ((is.null(dim(pi_test))) && (!is.null(pi_test))) {
-        pi_test <- as.matrix(pi_test)
-    }
-    if ((is.null(dim(rfx_basis_train))) && (!is.null(rfx_basis_train))) {
-        rfx_basis_train <- as.matrix(rfx_basis_train)
-    }
-    if ((is.null(dim(rfx_basis_test))) && (!is.null(rfx_basis_test))) {
-        rfx_basis_test <- as.matrix(rfx_basis_test)
-    }
+    if (!is.null(Z_train)) Z_train <- convertToNumericMatrix(Z_train)
+    if (!is.null(pi_train)) pi_train <- convertToNumericMatrix(pi_train)
+    if (!is.null(Z_test)) Z_test <- convertToNumericMatrix(Z_test)
+    if (!is.null(pi_test)) pi_test <- convertToNumericMatrix(pi_test)
+    if (!is.null(rfx_basis_train)) rfx_basis_train <- convertToNumericMatrix(rfx_basis_train)
+    if (!is.null(rfx_basis_test)) rfx_basis_test <- convertToNumericMatrix(rfx_basis_test)
     
     # Recode group IDs to integer vector (if passed as, for example, a vector of county names, etc...)
     has_rfx <- F
@@ -922,15 +910,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     X_test <- preprocessPredictionData(X_test, train_set_metadata)
     
     # Convert all input data to matrices if not already converted
-    if ((is.null(dim(Z_test))) && (!is.null(Z_test))) {
-        Z_test <- as.matrix(as.numeric(Z_test))
-    }
-    if ((is.null(dim(pi_test))) && (!is.null(pi_test))) {
-        pi_test <- as.matrix(pi_test)
-    }
-    if ((is.null(dim(rfx_basis_test))) && (!is.null(rfx_basis_test))) {
-        rfx_basis_test <- as.matrix(rfx_basis_test)
-    }
+    if (!is.null(Z_test)) Z_test <- convertToNumericMatrix(Z_test)
+    if (!is.null(pi_test)) pi_test <- convertToNumericMatrix(pi_test)
+    if (!is.null(rfx_basis_test)) rfx_basis_test <- convertToNumericMatrix(rfx_basis_test)
     
     # Data checks
     if ((bcf$model_params$propensity_covariate != "none") && (is.null(pi_test))) {
diff --git a/R/utils.R b/R/utils.R
index 35934c8..0cd0748 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -696,3 +696,15 @@ orderedCatPreprocess <- function(x_input, unique_levels, var_name = NULL) {
     }
     return(x_preprocessed)
 }
+
+#' Represent numeric data (a vector, matrix or dataframe) as a matrix of doubles
+#'
+#' @param x Numeric or logical data
+#' @return Matrix of type double
+#' @noRd
+convertToNumericMatrix <- function(x) {
+    x <- as.matrix(x)
+    if ((!is.numeric(x)) && (!is.logical(x))) stop("Bases, treatments and propensities must be numeric")
+    storage.mode(x) <- "double"
+    return(x)
+}
-- 
2.43.0


From b3c17d625ad18d5a6c8737f0f806fce836b4c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 79/96] fix: bcf refuses treatments of several columns, which
 it does not model

---
 R/bcf.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index b5761c7..210be84 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -255,6 +255,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     if ((!is.null(X_test)) && (ncol(X_test) != ncol(X_train))) {
         stop("X_train and X_test must have the same number of columns")
     }
+    if (ncol(Z_train) != 1) {
+        stop("Z_train must be a single column of treatment assignments")
+    }
     if ((!is.null(Z_test)) && (ncol(Z_test) != ncol(Z_train))) {
         stop("Z_train and Z_test must have the same number of columns")
     }
@@ -921,6 +924,9 @@ predict.bcf <- function(bcf, X_test, Z_test, pi_test = NULL, group_ids_test = NU
     if (nrow(X_test) != nrow(Z_test)) {
         stop("X_test and Z_test must have the same number of rows")
     }
+    if (ncol(Z_test) != 1) {
+        stop("Z_test must be a single column of treatment assignments")
+    }
     if (bcf$model_params$num_covariates != ncol(X_test)) {
         stop("X_test and must have the same number of columns as the covariates used to train the model")
     }
-- 
2.43.0


From 1c1687db22799cb2f4930a65101631549cfc0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:39 +0000
Subject: [PATCH 80/96] fix: bcf refuses variable choices that leave a forest
 without covariates

---
 R/bcf.R | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/R/bcf.R b/R/bcf.R
index 210be84..13926a9 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -152,8 +152,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             if (any(keep_vars_mu > ncol(X_train))) {
                 stop("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
             }
-            if (any(keep_vars_mu < 0)) {
-                stop("keep_vars_mu includes some negative variable indices")
+            if (any(keep_vars_mu < 1)) {
+                stop("keep_vars_mu includes some variable indices that are not positive")
             }
             variable_subset_mu <- keep_vars_mu
         }
@@ -167,8 +167,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             if (any(drop_vars_mu > ncol(X_train))) {
                 stop("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
             }
-            if (any(drop_vars_mu < 0)) {
-                stop("drop_vars_mu includes some negative variable indices")
+            if (any(drop_vars_mu < 1)) {
+                stop("drop_vars_mu includes some variable indices that are not positive")
             }
             variable_subset_mu <- (1:ncol(X_train))[!(1:ncol(X_train) %in% drop_vars_mu)]
         }
@@ -185,8 +185,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             if (any(keep_vars_tau > ncol(X_train))) {
                 stop("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
             }
-            if (any(keep_vars_tau < 0)) {
-                stop("keep_vars_tau includes some negative variable indices")
+            if (any(keep_vars_tau < 1)) {
+                stop("keep_vars_tau includes some variable indices that are not positive")
             }
             variable_subset_tau <- keep_vars_tau
         }
@@ -200,8 +200,8 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             if (any(drop_vars_tau > ncol(X_train))) {
                 stop("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
             }
-            if (any(drop_vars_tau < 0)) {
-                stop("drop_vars_tau includes some negative variable indices")
+            if (any(drop_vars_tau < 1)) {
+                stop("drop_vars_tau includes some variable indices that are not positive")
             }
             variable_subset_tau <- (1:ncol(X_train))[!(1:ncol(X_train) %in% drop_vars_tau)]
         }
@@ -393,6 +393,10 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     }
     feature_types <- as.integer(feature_types)
     
+    if ((sum(variable_weights_mu) <= 0) || (sum(variable_weights_tau) <= 0)) {
+        stop("Both forests must have at least one covariate to split on")
+    }
+    
     # Renormalize variable weights
     variable_weights_mu <- variable_weights_mu / sum(variable_weights_mu)
     variable_weights_tau <- variable_weights_tau / sum(variable_weights_tau)
-- 
2.43.0


From 50f0b71d1873b704f5be8eed13f4bd37b81ca893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 81/96] fix: missing ordered categories get one encoding in
 training and prediction data of R

---
 R/utils.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/utils.R b/R/utils.R
index 0cd0748..0aa8e13 100644
--- a/R/utils.R
+++ b/R/utils.R
@@ -640,6 +640,8 @@ orderedCatInitializeAndPreprocess <- function(x_input) {
         x_preprocessed <- as.integer(x_factor)
         unique_levels <- levels(x_factor)
     }
+    # Missing values are encoded as they are in prediction data
+    x_preprocessed[is.na(x_preprocessed)] <- length(unique_levels) + 1
     return(list(x_preprocessed = x_preprocessed, unique_levels = unique_levels))
 }
 
-- 
2.43.0


From 1f556d652338f99555bd65503e49598d2dbe4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:23 +0000
Subject: [PATCH 82/96] fix: bcf refuses variable weights that do not match the
 covariates

---
 R/bcf.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/bcf.R b/R/bcf.R
index 13926a9..cbc3cc8 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -139,6 +139,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             stop("X_test must be a matrix or dataframe")
         }
     }
+    if (ncol(X_train) != length(variable_weights)) {
+        stop("length(variable_weights) must equal ncol(X_train)")
+    }
     num_cov_orig <- ncol(X_train)
     
     # Standardize the keep variable lists to numeric indices
-- 
2.43.0


From d41800126ecb0f06fdef75fa673fcbaf2cf52945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 83/96] fix: tree prior refuses parameters outside their range

---
 include/stochtree/prior.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/stochtree/prior.h b/include/stochtree/prior.h
index af095d2..4522232 100644
--- a/include/stochtree/prior.h
+++ b/include/stochtree/prior.h
@@ -43,17 +43,26 @@ class RandomEffectsRegressionGaussianPrior : public RandomEffectsGaussianPrior {
 class TreePrior {
  public:
   TreePrior(double alpha, double beta, int32_t min_samples_in_leaf) {
-    alpha_ = alpha;
-    beta_ = beta;
-    min_samples_in_leaf_ = min_samples_in_leaf;
+    SetAlpha(alpha);
+    SetBeta(beta);
+    SetMinSamplesLeaf(min_samples_in_leaf);
   }
   ~TreePrior() {}
   double GetAlpha() {return alpha_;}
   double GetBeta() {return beta_;}
   int32_t GetMinSamplesLeaf() {return min_samples_in_leaf_;}
-  void SetAlpha(double alpha) {alpha_ = alpha;}
-  void SetBeta(double beta) {beta_ = beta;}
-  void SetMinSamplesLeaf(int32_t min_samples_in_leaf) {min_samples_in_leaf_ = min_samples_in_leaf;}
+  void SetAlpha(double alpha) {
+    CHECK(alpha >= 0. && alpha <= 1.);
+    alpha_ = alpha;
+  }
+  void SetBeta(double beta) {
+    CHECK_GE(beta, 0.);
+    beta_ = beta;
+  }
+  void SetMinSamplesLeaf(int32_t min_samples_in_leaf) {
+    CHECK_GE(min_samples_in_leaf, 1);
+    min_samples_in_leaf_ = min_samples_in_leaf;
+  }
  private:
   double alpha_;
   double beta_;
-- 
2.43.0


From 1061393f5e76a609618ae82fbf27aceb2307479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 84/96] fix: forest samplers refuse invalid weights, variances
 and non-finite data

---
 include/stochtree/tree_sampler.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index e5e5155..bbd2f0f 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -101,11 +101,23 @@ static inline void CheckForestInputs(ForestTracker& tracker, ForestDataset& data
 }
 
 /*! \brief Refuse sampler inputs that do not agree with each other, the tracker and the forests */
-static inline void CheckSamplerInputs(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, ForestContainer& forests, std::vector<double>& variable_weights, bool requires_basis) {
+static inline void CheckSamplerInputs(ForestTracker& tracker, ForestDataset& dataset, ColumnVector& residual, ForestContainer& forests, std::vector<double>& variable_weights, double global_variance, bool requires_basis) {
   CheckForestInputs(tracker, dataset, residual, forests.NumTrees(), forests.OutputDimension(), requires_basis);
   CHECK_EQ(variable_weights.size(), dataset.NumCovariates());
+  double total_weight = 0.;
+  for (double weight : variable_weights) {
+    CHECK_GE(weight, 0.);
+    total_weight += weight;
+  }
+  CHECK(total_weight > 0. && std::isfinite(total_weight));
+  CHECK(global_variance > 0. && std::isfinite(global_variance));
+  CHECK(residual.GetData().allFinite());
+  if (requires_basis) {
+    CHECK(dataset.GetBasis().allFinite());
+  }
   if (dataset.HasVarWeights()) {
     CHECK_EQ(dataset.GetVarWeights().size(), dataset.NumObservations());
+    CHECK(dataset.GetVarWeights().allFinite() && (dataset.GetVarWeights().array() > 0.).all());
   }
 }
 
@@ -173,7 +185,7 @@ class MCMCForestSampler {
   void SampleOneIter(ForestTracker& tracker, ForestContainer& forests, LeafModel& leaf_model, ForestDataset& dataset, 
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, bool pre_initialized = false) {
-    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, global_variance, leaf_model.RequiresBasis());
     CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
 
     // Previous number of samples
@@ -453,7 +465,7 @@ class GFRForestSampler {
   void SampleOneIter(ForestTracker& tracker, ForestContainer& forests, LeafModel& leaf_model, ForestDataset& dataset, 
                      ColumnVector& residual, TreePrior& tree_prior, std::mt19937& gen, std::vector<double>& variable_weights, 
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
-    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, leaf_model.RequiresBasis());
+    CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, global_variance, leaf_model.RequiresBasis());
     CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
     CHECK_EQ(feature_types.size(), dataset.NumCovariates());
     CHECK_GT(cutpoint_grid_size_, 0);
-- 
2.43.0


From bdc241948aff97ec32427a197c5476d8274293a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 85/96] fix: forest samplers refuse a leaf scale that is not a
 variance

---
 include/stochtree/leaf_model.h   | 9 +++++++++
 include/stochtree/tree_sampler.h | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/include/stochtree/leaf_model.h b/include/stochtree/leaf_model.h
index 06a449b..eff6062 100644
--- a/include/stochtree/leaf_model.h
+++ b/include/stochtree/leaf_model.h
@@ -15,6 +15,7 @@
 #include <stochtree/prior.h>
 #include <stochtree/tree.h>
 
+#include <cmath>
 #include <random>
 #include <tuple>
 
@@ -83,6 +84,8 @@ class GaussianConstantLeafModel {
   inline bool RequiresBasis() {return false;}
   /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
   inline bool ScaleMatchesDimension(int output_dimension) {return output_dimension == 1;}
+  /*! \brief Whether the leaf scale is a variance */
+  inline bool ScaleIsValid() {return std::isfinite(tau_) && (tau_ >= 0.);}
  private:
   double tau_;
   UnivariateNormalSampler normal_sampler_;
@@ -151,6 +154,8 @@ class GaussianUnivariateRegressionLeafModel {
   inline bool RequiresBasis() {return true;}
   /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
   inline bool ScaleMatchesDimension(int output_dimension) {return output_dimension == 1;}
+  /*! \brief Whether the leaf scale is a variance */
+  inline bool ScaleIsValid() {return std::isfinite(tau_) && (tau_ >= 0.);}
  private:
   double tau_;
   UnivariateNormalSampler normal_sampler_;
@@ -221,6 +226,10 @@ class GaussianMultivariateRegressionLeafModel {
   inline bool RequiresBasis() {return true;}
   /*! \brief Whether the leaf scale fits leaves with ``output_dimension`` values */
   inline bool ScaleMatchesDimension(int output_dimension) {return (Sigma_0_.rows() == output_dimension) && (Sigma_0_.cols() == output_dimension);}
+  /*! \brief Whether the leaf scale is a covariance matrix */
+  inline bool ScaleIsValid() {
+    return Sigma_0_.allFinite() && Sigma_0_.isApprox(Sigma_0_.transpose()) && (Eigen::LLT<Eigen::MatrixXd>(Sigma_0_).info() == Eigen::Success);
+  }
  private:
   Eigen::MatrixXd Sigma_0_;
   MultivariateNormalSampler multivariate_normal_sampler_;
diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index bbd2f0f..6abcd26 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -187,6 +187,7 @@ class MCMCForestSampler {
                      double global_variance, bool pre_initialized = false) {
     CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, global_variance, leaf_model.RequiresBasis());
     CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
+    CHECK(leaf_model.ScaleIsValid());
 
     // Previous number of samples
     int prev_num_samples = forests.NumSamples();
@@ -467,6 +468,7 @@ class GFRForestSampler {
                      double global_variance, std::vector<FeatureType>& feature_types, bool pre_initialized = false) {
     CheckSamplerInputs(tracker, dataset, residual, forests, variable_weights, global_variance, leaf_model.RequiresBasis());
     CHECK(leaf_model.ScaleMatchesDimension(forests.OutputDimension()));
+    CHECK(leaf_model.ScaleIsValid());
     CHECK_EQ(feature_types.size(), dataset.NumCovariates());
     CHECK_GT(cutpoint_grid_size_, 0);
 
-- 
2.43.0


From a75e353388d38a586dd6557fddb66eaec5ab4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 86/96] fix: variance models refuse parameters that define no
 inverse gamma distribution

---
 include/stochtree/ig_sampler.h     | 5 +++++
 include/stochtree/variance_model.h | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/stochtree/ig_sampler.h b/include/stochtree/ig_sampler.h
index ebfaee3..f159466 100644
--- a/include/stochtree/ig_sampler.h
+++ b/include/stochtree/ig_sampler.h
@@ -2,6 +2,9 @@
 #ifndef STOCHTREE_IG_SAMPLER_H_
 #define STOCHTREE_IG_SAMPLER_H_
 
+#include <stochtree/log.h>
+
+#include <cmath>
 #include <random>
 
 namespace StochTree {
@@ -11,6 +14,8 @@ class InverseGammaSampler {
   InverseGammaSampler() {}
   ~InverseGammaSampler() {}
   double Sample(double shape, double scale, std::mt19937& gen) {
+    CHECK(shape > 0. && std::isfinite(shape));
+    CHECK(scale > 0. && std::isfinite(scale));
     // C++ standard library provides a gamma distribution with scale
     // parameter, but the correspondence between gamma and IG is that 
     // 1 / gamma(a,b) ~ IG(a,b) when b is a __rate__ parameter.
diff --git a/include/stochtree/variance_model.h b/include/stochtree/variance_model.h
index 857ae38..e1d2644 100644
--- a/include/stochtree/variance_model.h
+++ b/include/stochtree/variance_model.h
@@ -38,6 +38,8 @@ class GlobalHomoskedasticVarianceModel {
     return nu_lambda + sum_sq_resid/2.0;
   }
   double SampleVarianceParameter(Eigen::VectorXd& residuals, double nu, double lambda, std::mt19937& gen) {
+    CHECK_GE(nu, 0.);
+    CHECK_GE(lambda, 0.);
     double ig_shape = PosteriorShape(residuals, nu, lambda);
     double ig_scale = PosteriorScale(residuals, nu, lambda);
     return ig_sampler_.Sample(ig_shape, ig_scale, gen);
@@ -61,6 +63,8 @@ class LeafNodeHomoskedasticVarianceModel {
     return b + mu_sq/2.0;
   }
   double SampleVarianceParameter(TreeEnsemble* ensemble, double a, double b, std::mt19937& gen) {
+    CHECK_GE(a, 0.);
+    CHECK_GE(b, 0.);
     double ig_shape = PosteriorShape(ensemble, a, b);
     double ig_scale = PosteriorScale(ensemble, a, b);
     return ig_sampler_.Sample(ig_shape, ig_scale, gen);
-- 
2.43.0


From eeca34914ddc9ca4495b743c5b556b9fae50d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:15 +0000
Subject: [PATCH 87/96] fix: random effects sampler refuses parameters and data
 it cannot use

---
 include/stochtree/random_effects.h | 10 ++++++----
 src/random_effects.cpp             | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index 135993d..b3dd167 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -96,10 +96,12 @@ class MultivariateRegressionRandomEffectsModel {
     ig_sampler_ = InverseGammaSampler();
     num_components_ = num_components;
     num_groups_ = num_groups;
-    working_parameter_ = Eigen::VectorXd(num_components_);
-    group_parameters_ = Eigen::MatrixXd(num_components_, num_groups_);
-    group_parameter_covariance_ = Eigen::MatrixXd(num_components_, num_components_);
-    working_parameter_covariance_ = Eigen::MatrixXd(num_components_, num_components_);
+    working_parameter_ = Eigen::VectorXd::Zero(num_components_);
+    group_parameters_ = Eigen::MatrixXd::Zero(num_components_, num_groups_);
+    group_parameter_covariance_ = Eigen::MatrixXd::Zero(num_components_, num_components_);
+    working_parameter_covariance_ = Eigen::MatrixXd::Zero(num_components_, num_components_);
+    variance_prior_shape_ = 0.;
+    variance_prior_scale_ = 0.;
   }
   ~MultivariateRegressionRandomEffectsModel() {}
   
diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 79ed38c..3fac2f2 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -1,5 +1,6 @@
 /*! Copyright (c) 2024 StochasticTree authors */
 #include <stochtree/random_effects.h>
+#include <cmath>
 
 namespace StochTree {
 
@@ -43,6 +44,10 @@ void LabelMapper::from_json(const nlohmann::json& rfx_label_mapper_json) {
   label_map_ = std::move(label_map);
 }
 
+static bool IsCovariance(Eigen::MatrixXd& matrix) {
+  return matrix.allFinite() && matrix.isApprox(matrix.transpose()) && (Eigen::LLT<Eigen::MatrixXd>(matrix).info() == Eigen::Success);
+}
+
 void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffectsDataset& dataset, ColumnVector& residual, RandomEffectsTracker& rfx_tracker, 
                                                                    double global_variance, std::mt19937& gen) {
   CheckInputs(dataset, rfx_tracker);
@@ -51,6 +56,15 @@ void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffects
   CHECK_EQ(working_parameter_covariance_.cols(), num_components_);
   CHECK_EQ(group_parameter_covariance_.rows(), num_components_);
   CHECK_EQ(group_parameter_covariance_.cols(), num_components_);
+  CHECK(IsCovariance(working_parameter_covariance_));
+  CHECK(IsCovariance(group_parameter_covariance_));
+  CHECK(working_parameter_.allFinite() && group_parameters_.allFinite());
+  CHECK(variance_prior_shape_ >= 0. && std::isfinite(variance_prior_shape_));
+  CHECK(variance_prior_scale_ >= 0. && std::isfinite(variance_prior_scale_));
+  CHECK(global_variance > 0. && std::isfinite(global_variance));
+  CHECK(dataset.GetBasis().allFinite());
+  CHECK_EQ(residual.NumRows(), dataset.NumObservations());
+  CHECK(residual.GetData().allFinite());
 
   // Update partial residual to add back in the random effects
   AddCurrentPredictionToResidual(dataset, rfx_tracker, residual);
-- 
2.43.0


From f6c9f3fb313d4ce7e0b17a2d2f26d9970c70b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 88/96] fix: missing covariates go the same way in training as
 in prediction

---
 include/stochtree/partition_tracker.h | 8 +++++++-
 include/stochtree/tree.h              | 5 ++++-
 include/stochtree/tree_sampler.h      | 3 +++
 src/partition_tracker.cpp             | 7 +++++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/stochtree/partition_tracker.h b/include/stochtree/partition_tracker.h
index 7f2a6b7..9334389 100644
--- a/include/stochtree/partition_tracker.h
+++ b/include/stochtree/partition_tracker.h
@@ -468,7 +468,13 @@ class FeaturePresortRoot {
     // Define a custom comparator to be used with stable_sort:
     // For every two indices l and r store as elements of `data_sort_indices_`, 
     // compare them for sorting purposes by indexing the covariate's raw data with both l and r
-    auto comp_op = [&](size_t const &l, size_t const &r) { return std::less<double>{}(covariates(l, feature_index_), covariates(r, feature_index_)); };
+    // Missing values come first, since they go to the left child of every split
+    auto comp_op = [&](size_t const &l, size_t const &r) {
+      double left_value = covariates(l, feature_index_);
+      double right_value = covariates(r, feature_index_);
+      if (std::isnan(left_value) || std::isnan(right_value)) return std::isnan(left_value) && !std::isnan(right_value);
+      return std::less<double>{}(left_value, right_value);
+    };
     std::stable_sort(feature_sort_indices_.begin(), feature_sort_indices_.end(), comp_op);
   }
 
diff --git a/include/stochtree/tree.h b/include/stochtree/tree.h
index aa38e68..ea2755a 100644
--- a/include/stochtree/tree.h
+++ b/include/stochtree/tree.h
@@ -703,7 +703,8 @@ inline bool operator==(const Tree& lhs, const Tree& rhs) {
  *  \param right_child Node id of the right child
  */
 inline bool SplitTrueNumeric(double fvalue, double threshold) {
-  return (fvalue <= threshold);
+  // Missing values go to the default (left) child
+  return (fvalue <= threshold) || std::isnan(fvalue);
 }
 
 /*! \brief Determine whether an observation produces a "true" value in a categorical split node
@@ -714,6 +715,8 @@ inline bool SplitTrueNumeric(double fvalue, double threshold) {
  */
 inline bool SplitTrueCategorical(double fvalue, std::vector<std::uint32_t> const& category_list) {
   bool category_matched;
+  // Missing values go to the default (left) child
+  if (std::isnan(fvalue)) return true;
   // A valid (integer) category must satisfy two criteria:
   // 1) it must be exactly representable as double
   // 2) it must fit into uint32_t
diff --git a/include/stochtree/tree_sampler.h b/include/stochtree/tree_sampler.h
index 6abcd26..a10def4 100644
--- a/include/stochtree/tree_sampler.h
+++ b/include/stochtree/tree_sampler.h
@@ -322,6 +322,9 @@ class MCMCForestSampler {
     // Split based on var_min to var_max in a given node
     std::uniform_real_distribution<double> split_point_dist(var_min, var_max);
     double split_point_chosen = split_point_dist(gen);
+    if (!std::isfinite(split_point_chosen)) {
+      return;
+    }
 
     // Create a split object
     TreeSplit split = TreeSplit(split_point_chosen);
diff --git a/src/partition_tracker.cpp b/src/partition_tracker.cpp
index 5449c8a..5a6d75d 100644
--- a/src/partition_tracker.cpp
+++ b/src/partition_tracker.cpp
@@ -17,6 +17,13 @@ namespace StochTree {
 ForestTracker::ForestTracker(Eigen::MatrixXd& covariates, std::vector<FeatureType>& feature_types, int num_trees, int num_observations) {
   CHECK_EQ(feature_types.size(), covariates.cols());
   CHECK_EQ(num_observations, covariates.rows());
+  for (size_t j = 0; j < feature_types.size(); j++) {
+    if (feature_types[j] == FeatureType::kNumeric) continue;
+    // Categories are stored as unsigned integers
+    for (data_size_t i = 0; i < num_observations; i++) {
+      CHECK(covariates(i, j) >= 0. && covariates(i, j) <= static_cast<double>(std::numeric_limits<std::uint32_t>::max()));
+    }
+  }
   sample_pred_mapper_ = std::make_unique<SamplePredMapper>(num_trees, num_observations);
   sample_node_mapper_ = std::make_unique<SampleNodeMapper>(num_trees, num_observations);
   unsorted_node_sample_tracker_ = std::make_unique<UnsortedNodeSampleTracker>(num_observations, num_trees);
-- 
2.43.0


From 25ee3802088e6a9526a26ccd80e8c37f6f004ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 89/96] fix: a refused call to sample leaves BARTModel and
 BCFModel as they were

---
 stochtree/bart.py  |  3 ++-
 stochtree/bcf.py   |  3 ++-
 stochtree/utils.py | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index a669fd0..c3e21a8 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -8,7 +8,7 @@ from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError, residual_variance
+from .utils import NotSampledError, keep_state_on_error, residual_variance
 
 class BARTModel:
     """Class that handles sampling, storage, and serialization of stochastic forest models like BART, XBART, and Warm-Start BART
@@ -22,6 +22,7 @@ class BARTModel:
     def is_sampled(self) -> bool:
         return self.sampled
     
+    @keep_state_on_error
     def sample(self, X_train: np.array, y_train: np.array, basis_train: np.array = None, X_test: np.array = None, basis_test: np.array = None, 
                cutpoint_grid_size = 100, sigma_leaf: float = None, alpha: float = 0.95, beta: float = 2.0, min_samples_leaf: int = 5, 
                nu: float = 3, lamb: float = None, a_leaf: float = 3, b_leaf: float = None, q: float = 0.9, sigma2: float = None, 
diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index 0118dbe..cc0651a 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -13,7 +13,7 @@ from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError, residual_variance
+from .utils import NotSampledError, residual_variance, keep_state_on_error
 
 def mean_propensity(propensity_samples: np.array) -> np.array:
     """Average of propensity samples for every row, summed in the same order however many rows there are"""
@@ -31,6 +31,7 @@ class BCFModel:
     def is_sampled(self) -> bool:
         return self.sampled
     
+    @keep_state_on_error
     def sample(self, X_train: Union[pd.DataFrame, np.array], Z_train: np.array, y_train: np.array, pi_train: np.array = None, 
                X_test: Union[pd.DataFrame, np.array] = None, Z_test: np.array = None, pi_test: np.array = None, 
                cutpoint_grid_size = 100, sigma_leaf_mu: float = None, sigma_leaf_tau: float = None, 
diff --git a/stochtree/utils.py b/stochtree/utils.py
index 2a8f10a..875ce74 100644
--- a/stochtree/utils.py
+++ b/stochtree/utils.py
@@ -1,6 +1,20 @@
+from functools import wraps
 import numpy as np
 from scipy.linalg import lstsq
 
+def keep_state_on_error(method):
+    """Decorator for methods that leave an object as it was if they raise an error"""
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+    return wrapper
+
 def residual_variance(covariates: np.array, outcome: np.array) -> float:
     """Mean squared residual of a linear regression of ``outcome`` on ``covariates`` and an intercept, 
     or the variance of ``outcome`` if the regression leaves no degrees of freedom
-- 
2.43.0


From 0ffd1feec7a67feae619100bfdb945d652e9adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 90/96] fix: BARTModel refuses parameters and data it cannot
 use

---
 stochtree/bart.py  | 27 ++++++++++++++++++++++++++-
 stochtree/utils.py | 12 ++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/stochtree/bart.py b/stochtree/bart.py
index c3e21a8..944f4dd 100644
--- a/stochtree/bart.py
+++ b/stochtree/bart.py
@@ -8,7 +8,7 @@ from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError, keep_state_on_error, residual_variance
+from .utils import NotSampledError, check_number, keep_state_on_error, residual_variance
 
 class BARTModel:
     """Class that handles sampling, storage, and serialization of stochastic forest models like BART, XBART, and Warm-Start BART
@@ -124,7 +124,32 @@ class BARTModel:
             if basis_test.ndim == 1:
                 basis_test = np.expand_dims(basis_test, 1)
         
+        # Parameter checks
+        for name, value in [("num_trees", num_trees), ("min_samples_leaf", min_samples_leaf), ("cutpoint_grid_size", cutpoint_grid_size)]:
+            check_number(value, name, min_val=1, integer=True)
+        for name, value in [("num_gfr", num_gfr), ("num_burnin", num_burnin), ("num_mcmc", num_mcmc)]:
+            check_number(value, name, min_val=0, integer=True)
+        if random_seed is not None:
+            check_number(random_seed, "random_seed", integer=True)
+        check_number(alpha, "alpha", min_val=0, max_val=1)
+        check_number(beta, "beta", min_val=0)
+        check_number(nu, "nu", min_val=0, include_boundaries="neither")
+        check_number(q, "q", min_val=0, max_val=1, include_boundaries="neither")
+        check_number(a_leaf, "a_leaf", min_val=0)
+        for name, value in [("lamb", lamb), ("b_leaf", b_leaf)]:
+            if value is not None:
+                check_number(value, name, min_val=0)
+        for name, value in [("sigma2", sigma2), ("sigma_leaf", sigma_leaf)]:
+            if value is not None:
+                check_number(value, name, min_val=0, include_boundaries="neither")
+
         # Data checks
+        if X_train.shape[0] == 0:
+            raise ValueError("X_train must have at least one row")
+        if y_train.ndim != 2 or y_train.shape[1] != 1:
+            raise ValueError("y_train must be a vector")
+        if X_test is not None and basis_train is not None and basis_test is None:
+            raise ValueError("basis_test must be provided with X_test since basis_train was provided")
         if X_test is not None:
             if X_test.shape[1] != X_train.shape[1]:
                 raise ValueError("X_train and X_test must have the same number of columns")
diff --git a/stochtree/utils.py b/stochtree/utils.py
index 875ce74..59200cf 100644
--- a/stochtree/utils.py
+++ b/stochtree/utils.py
@@ -1,7 +1,19 @@
 from functools import wraps
+from numbers import Integral, Real
 import numpy as np
 from scipy.linalg import lstsq
 
+def check_number(x, name: str, min_val: float = None, max_val: float = None, include_boundaries: str = "both", integer: bool = False) -> None:
+    """Refuse a parameter that is not a number, is missing or lies outside its range"""
+    if not isinstance(x, Integral if integer else Real):
+        raise TypeError(f"{name} must be {'an integer' if integer else 'a number'}")
+    if np.isnan(x):
+        raise ValueError(f"{name} must not be missing")
+    if min_val is not None and (x < min_val or (x == min_val and include_boundaries in ("right", "neither"))):
+        raise ValueError(f"{name} == {x}, must be {'>=' if include_boundaries in ('left', 'both') else '>'} {min_val}")
+    if max_val is not None and (x > max_val or (x == max_val and include_boundaries in ("left", "neither"))):
+        raise ValueError(f"{name} == {x}, must be {'<=' if include_boundaries in ('right', 'both') else '<'} {max_val}")
+
 def keep_state_on_error(method):
     """Decorator for methods that leave an object as it was if they raise an error"""
     @wraps(method)
-- 
2.43.0


From ec9ee6ee6932a3dba70ef35ad9041e18166997c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 91/96] fix: BCFModel refuses missing numbers for its
 parameters

---
 stochtree/bcf.py   | 3 +--
 stochtree/utils.py | 8 ++++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index cc0651a..f6b77d2 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -5,7 +5,6 @@ import numpy as np
 import pandas as pd
 from sklearn.ensemble import HistGradientBoostingClassifier, HistGradientBoostingRegressor
 from sklearn.model_selection import GridSearchCV, KFold
-from sklearn.utils import check_scalar
 from typing import Optional, Union
 from scipy.stats import gamma
 from .bart import BARTModel
@@ -13,7 +12,7 @@ from .data import Dataset, Residual
 from .forest import ForestContainer
 from .preprocessing import CovariateTransformer
 from .sampler import ForestSampler, RNG, GlobalVarianceModel, LeafVarianceModel
-from .utils import NotSampledError, residual_variance, keep_state_on_error
+from .utils import NotSampledError, check_scalar, keep_state_on_error, residual_variance
 
 def mean_propensity(propensity_samples: np.array) -> np.array:
     """Average of propensity samples for every row, summed in the same order however many rows there are"""
diff --git a/stochtree/utils.py b/stochtree/utils.py
index 59200cf..66da219 100644
--- a/stochtree/utils.py
+++ b/stochtree/utils.py
@@ -2,6 +2,7 @@ from functools import wraps
 from numbers import Integral, Real
 import numpy as np
 from scipy.linalg import lstsq
+from sklearn.utils import check_scalar as check_scalar_range
 
 def check_number(x, name: str, min_val: float = None, max_val: float = None, include_boundaries: str = "both", integer: bool = False) -> None:
     """Refuse a parameter that is not a number, is missing or lies outside its range"""
@@ -14,6 +15,13 @@ def check_number(x, name: str, min_val: float = None, max_val: float = None, inc
     if max_val is not None and (x > max_val or (x == max_val and include_boundaries in ("left", "neither"))):
         raise ValueError(f"{name} == {x}, must be {'<=' if include_boundaries in ('right', 'both') else '<'} {max_val}")
 
+def check_scalar(x, name: str, **kwargs):
+    """scikit-learn's ``check_scalar``, which does not notice a missing number"""
+    x = check_scalar_range(x, name, **kwargs)
+    if np.isnan(x):
+        raise ValueError(f"{name} must not be missing")
+    return x
+
 def keep_state_on_error(method):
     """Decorator for methods that leave an object as it was if they raise an error"""
     @wraps(method)
-- 
2.43.0


From ab8df0d1443b6616ce6c0fed5c9c275a594e0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 92/96] fix: BCFModel refuses data and variable lists that do
 not fit together

---
 stochtree/bcf.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/stochtree/bcf.py b/stochtree/bcf.py
index f6b77d2..44d319f 100644
--- a/stochtree/bcf.py
+++ b/stochtree/bcf.py
@@ -165,6 +165,8 @@ class BCFModel:
                 variable_weights = np.repeat(1., 1)
         if np.any(variable_weights < 0):
             raise ValueError("variable_weights cannot have any negative weights")
+        if not np.all(np.isfinite(variable_weights)):
+            raise ValueError("variable_weights cannot have any missing or infinite weights")
         
         # Check data inputs
         if not isinstance(X_train, pd.DataFrame) and not isinstance(X_train, np.ndarray):
@@ -212,6 +214,8 @@ class BCFModel:
 
         # Original number of covariates
         num_cov_orig = X_train.shape[1]
+        if np.shape(variable_weights) != (num_cov_orig,):
+            raise ValueError("variable_weights must have one weight per column of X_train")
         
         # Data checks
         if X_test is not None:
@@ -220,6 +224,15 @@ class BCFModel:
         if Z_test is not None:
             if Z_test.shape[1] != Z_train.shape[1]:
                 raise ValueError("Z_train and Z_test must have the same number of columns")
+        if X_test is not None and Z_test is None:
+            raise ValueError("Z_test must be provided with X_test")
+        if pi_train is not None and propensity_covariate != "none":
+            if X_test is not None and pi_test is None:
+                raise ValueError("pi_test must be provided with X_test since pi_train was provided")
+            if pi_test is not None and pi_test.shape[1] != pi_train.shape[1]:
+                raise ValueError("pi_train and pi_test must have the same number of columns")
+        if y_train.ndim != 2 or y_train.shape[1] != 1:
+            raise ValueError("y_train must be a vector")
         if Z_train.shape[0] != X_train.shape[0]:
             raise ValueError("X_train and Z_train must have the same number of rows")
         if y_train.shape[0] != X_train.shape[0]:
@@ -250,6 +263,8 @@ class BCFModel:
                             raise ValueError("sigma_leaf_tau must be 2-dimensional if passed as a np.array")
                         if self.treatment_dim != sigma_leaf_tau.shape[0] or self.treatment_dim != sigma_leaf_tau.shape[1]:
                             raise ValueError("sigma_leaf_tau must have the same number of rows and columns, which must match Z_train.shape[1]")
+            elif np.size(sigma_leaf_tau) != 1:
+                raise ValueError("sigma_leaf_tau must be a single number for a univariate treatment")
         if sigma_leaf_mu is not None:
             sigma_leaf_mu = check_scalar(x=sigma_leaf_mu, name="sigma_leaf_mu", target_type=float, 
                                         min_val=0., max_val=None, include_boundaries="neither")
@@ -359,11 +374,13 @@ class BCFModel:
                         raise ValueError("keep_vars_mu includes some variable names that are not in X_train")
                     variable_subset_mu = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_mu]
                 else:
+                    if keep_vars_mu.size > 0 and keep_vars_mu.dtype.kind not in ('i', 'u'):
+                        raise ValueError("keep_vars_mu must be an array of variable names (str) or column indices (int)")
                     if np.any(keep_vars_mu >= X_train.shape[1]):
                         raise ValueError("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(keep_vars_mu < 0):
                         raise ValueError("keep_vars_mu includes some negative variable indices")
-                    variable_subset_mu = [i for i in keep_vars_mu]
+                    variable_subset_mu = [int(i) for i in keep_vars_mu]
             else:
                 raise ValueError("keep_vars_mu must be a list or np.array")
         elif keep_vars_mu is None and drop_vars_mu is not None:
@@ -387,6 +404,8 @@ class BCFModel:
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_mu)
                     variable_subset_mu = [i for i in np.flatnonzero(keep_inds)]
                 else:
+                    if drop_vars_mu.size > 0 and drop_vars_mu.dtype.kind not in ('i', 'u'):
+                        raise ValueError("drop_vars_mu must be an array of variable names (str) or column indices (int)")
                     if np.any(drop_vars_mu >= X_train.shape[1]):
                         raise ValueError("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_mu < 0):
@@ -417,11 +436,13 @@ class BCFModel:
                         raise ValueError("keep_vars_tau includes some variable names that are not in X_train")
                     variable_subset_tau = [i for i in range(X_train.shape[1]) if X_train.columns.array[i] in keep_vars_tau]
                 else:
+                    if keep_vars_tau.size > 0 and keep_vars_tau.dtype.kind not in ('i', 'u'):
+                        raise ValueError("keep_vars_tau must be an array of variable names (str) or column indices (int)")
                     if np.any(keep_vars_tau >= X_train.shape[1]):
                         raise ValueError("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(keep_vars_tau < 0):
                         raise ValueError("keep_vars_tau includes some negative variable indices")
-                    variable_subset_tau = [i for i in keep_vars_tau]
+                    variable_subset_tau = [int(i) for i in keep_vars_tau]
             else:
                 raise ValueError("keep_vars_tau must be a list or np.array")
         elif keep_vars_tau is None and drop_vars_tau is not None:
@@ -445,6 +466,8 @@ class BCFModel:
                     keep_inds = ~np.isin(X_train.columns.array, drop_vars_tau)
                     variable_subset_tau = [i for i in np.flatnonzero(keep_inds)]
                 else:
+                    if drop_vars_tau.size > 0 and drop_vars_tau.dtype.kind not in ('i', 'u'):
+                        raise ValueError("drop_vars_tau must be an array of variable names (str) or column indices (int)")
                     if np.any(drop_vars_tau >= X_train.shape[1]):
                         raise ValueError("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
                     if np.any(drop_vars_tau < 0):
@@ -502,6 +525,7 @@ class BCFModel:
             self.internal_propensity_model = True
         else:
             self.internal_propensity_model = False
+        self.propensity_dim = pi_train.shape[1] if pi_train is not None else 0
 
         # Scale outcome
         self.y_bar = np.squeeze(np.mean(y_train))
@@ -858,9 +882,13 @@ class BCFModel:
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have as many columns as the treatments used to train the model")
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
+            if self.propensity_covariate in ["tau", "both"] and propensity.shape[1] != self.propensity_dim:
+                raise ValueError("propensity must have as many columns as the propensities used to train the model")
         else:
             if self.propensity_covariate in ["tau", "both"]:
                 if not self.internal_propensity_model:
@@ -933,9 +961,13 @@ class BCFModel:
         # Data checks
         if Z.shape[0] != X.shape[0]:
             raise ValueError("X and Z must have the same number of rows")
+        if Z.shape[1] != self.treatment_dim:
+            raise ValueError("Z must have as many columns as the treatments used to train the model")
         if propensity is not None:
             if propensity.shape[0] != X.shape[0]:
                 raise ValueError("X and propensity must have the same number of rows")
+            if self.propensity_covariate != "none" and propensity.shape[1] != self.propensity_dim:
+                raise ValueError("propensity must have as many columns as the propensities used to train the model")
         else:
             if self.propensity_covariate != "none":
                 if not self.internal_propensity_model:
-- 
2.43.0


From f110d9905e3501aaef05d74fed9757b89845ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 93/96] fix: bart and bcf of R refuse leaf scales, variable
 lists and propensities of the wrong form

---
 R/bart.R |  3 +++
 R/bcf.R  | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/R/bart.R b/R/bart.R
index 5004bbf..8850233 100644
--- a/R/bart.R
+++ b/R/bart.R
@@ -259,6 +259,9 @@ bart <- function(X_train, y_train, W_train = NULL, group_ids_train = NULL,
     if ((leaf_model == 2) && (length(tau_init) == 1)) {
         current_leaf_scale <- diag(as.numeric(tau_init), output_dimension, output_dimension)
     } else {
+        if ((leaf_model != 2) && (length(tau_init) != 1)) {
+            stop("tau_init must be a single number for univariate leaf models")
+        }
         current_leaf_scale <- as.matrix(tau_init)
     }
     
diff --git a/R/bcf.R b/R/bcf.R
index cbc3cc8..ca5cc6f 100644
--- a/R/bcf.R
+++ b/R/bcf.R
@@ -152,6 +152,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             }
             variable_subset_mu <- unname(which(names(X_train) %in% keep_vars_mu))
         } else {
+            if ((!is.numeric(keep_vars_mu)) || any(keep_vars_mu != round(keep_vars_mu))) {
+                stop("keep_vars_mu must contain variable names or whole variable indices")
+            }
             if (any(keep_vars_mu > ncol(X_train))) {
                 stop("keep_vars_mu includes some variable indices that exceed the number of columns in X_train")
             }
@@ -167,6 +170,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             }
             variable_subset_mu <- unname(which(!(names(X_train) %in% drop_vars_mu)))
         } else {
+            if ((!is.numeric(drop_vars_mu)) || any(drop_vars_mu != round(drop_vars_mu))) {
+                stop("drop_vars_mu must contain variable names or whole variable indices")
+            }
             if (any(drop_vars_mu > ncol(X_train))) {
                 stop("drop_vars_mu includes some variable indices that exceed the number of columns in X_train")
             }
@@ -185,6 +191,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             }
             variable_subset_tau <- unname(which(names(X_train) %in% keep_vars_tau))
         } else {
+            if ((!is.numeric(keep_vars_tau)) || any(keep_vars_tau != round(keep_vars_tau))) {
+                stop("keep_vars_tau must contain variable names or whole variable indices")
+            }
             if (any(keep_vars_tau > ncol(X_train))) {
                 stop("keep_vars_tau includes some variable indices that exceed the number of columns in X_train")
             }
@@ -200,6 +209,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
             }
             variable_subset_tau <- unname(which(!(names(X_train) %in% drop_vars_tau)))
         } else {
+            if ((!is.numeric(drop_vars_tau)) || any(drop_vars_tau != round(drop_vars_tau))) {
+                stop("drop_vars_tau must contain variable names or whole variable indices")
+            }
             if (any(drop_vars_tau > ncol(X_train))) {
                 stop("drop_vars_tau includes some variable indices that exceed the number of columns in X_train")
             }
@@ -376,6 +388,7 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
 
     if (has_test && (propensity_covariate != "none")) {
         if (is.null(pi_test)) stop("Propensity score must be provided for the test set if provided for the training set")
+        if (ncol(pi_test) != ncol(pi_train)) stop("pi_train and pi_test must have the same number of columns")
     }
     
     # Update feature_types and covariates
@@ -426,6 +439,9 @@ bcf <- function(X_train, Z_train, y_train, pi_train = NULL, group_ids_train = NU
     if (is.null(sigma_leaf_mu)) sigma_leaf_mu <- var(resid_train)/(num_trees_mu)
     if (is.null(sigma_leaf_tau)) sigma_leaf_tau <- var(resid_train)/(2*num_trees_tau)
     current_sigma2 <- sigma2
+    if ((length(sigma_leaf_mu) != 1) || (length(sigma_leaf_tau) != 1)) {
+        stop("sigma_leaf_mu and sigma_leaf_tau must be single numbers")
+    }
     current_leaf_scale_mu <- as.matrix(sigma_leaf_mu)
     current_leaf_scale_tau <- as.matrix(sigma_leaf_tau)
     
-- 
2.43.0


From 7964c2044dae631c0d6759c8348350bed90ea7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 94/96] fix: array columns with two values that are no
 categories are treated as numeric

---
 stochtree/preprocessing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stochtree/preprocessing.py b/stochtree/preprocessing.py
index 5c7674a..30ece51 100644
--- a/stochtree/preprocessing.py
+++ b/stochtree/preprocessing.py
@@ -152,8 +152,10 @@ class CovariateTransformer:
         
         # Scan for binary columns
         for i in range(self._num_original_features):
-            num_unique = np.unique(covariates[:,i]).size
-            if num_unique == 2:
+            unique_values = np.unique(covariates[:,i]).astype(float)
+            # Categories are non-negative whole numbers, so other pairs of values are treated as numeric
+            valid_categories = np.all((unique_values >= 0) & (unique_values <= np.iinfo(np.uint32).max) & (unique_values == np.floor(unique_values)))
+            if unique_values.size == 2 and valid_categories:
                 self._processed_feature_types.append(1)
             else:
                 self._processed_feature_types.append(0)
-- 
2.43.0


From 3c37ed8b02acc2b8e88fcfbbf839fe8244ed0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 95/96] fix: parameters of random-effects groups and components
 that do not exist are written out of bounds

---
 include/stochtree/random_effects.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stochtree/random_effects.h b/include/stochtree/random_effects.h
index b3dd167..61e0b0b 100644
--- a/include/stochtree/random_effects.h
+++ b/include/stochtree/random_effects.h
@@ -119,6 +119,9 @@ class MultivariateRegressionRandomEffectsModel {
     group_parameters_ = group_parameters;
   }
   void SetGroupParameter(Eigen::VectorXd& group_parameter, int32_t group_id) {
+    CHECK_GE(group_id, 0);
+    CHECK_LT(group_id, group_parameters_.cols());
+    CHECK_EQ(group_parameter.size(), group_parameters_.rows());
     group_parameters_(Eigen::all, group_id) = group_parameter;
   }
   void SetWorkingParameterCovariance(Eigen::MatrixXd& working_parameter_covariance) {
@@ -128,6 +131,9 @@ class MultivariateRegressionRandomEffectsModel {
     group_parameter_covariance_ = group_parameter_covariance;
   }
   void SetGroupParameterVarianceComponent(double value, int32_t component_id) {
+    CHECK_GE(component_id, 0);
+    CHECK_LT(component_id, group_parameter_covariance_.rows());
+    CHECK_LT(component_id, group_parameter_covariance_.cols());
     group_parameter_covariance_(component_id, component_id) = value;
   }
   void SetVariancePriorShape(double value) {
-- 
2.43.0


From 715b04be43f5ddc950c9b088c4ef283938fcb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 96/96] fix: random effects are sampled with group labels other
 than those of the tracker

---
 src/random_effects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random_effects.cpp b/src/random_effects.cpp
index 3fac2f2..f35e3dd 100644
--- a/src/random_effects.cpp
+++ b/src/random_effects.cpp
@@ -52,6 +52,9 @@ void MultivariateRegressionRandomEffectsModel::SampleRandomEffects(RandomEffects
                                                                    double global_variance, std::mt19937& gen) {
   CheckInputs(dataset, rfx_tracker);
   CHECK_EQ(rfx_tracker.GetSampleCategoryMapper()->NumObservations(), dataset.NumObservations());
+  for (data_size_t i = 0; i < dataset.NumObservations(); i++) {
+    CHECK_EQ(rfx_tracker.GetCategoryId(i), dataset.GetGroupLabels()[i]);
+  }
   CHECK_EQ(working_parameter_covariance_.rows(), num_components_);
   CHECK_EQ(working_parameter_covariance_.cols(), num_components_);
   CHECK_EQ(group_parameter_covariance_.rows(), num_components_);
-- 
2.43.0

