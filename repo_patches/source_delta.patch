From f5e0ac8fe25dbe565d68ca92e12c4ac6e115206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 01/69] fix: argsort of two elements per line must not produce
 an out-of-range index

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From eeb29ce778c3772e1fa496ac4c035d3a1667635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 02/69] fix: KD-tree root boxes are cut along the split axis,
 not always axis 0

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From 28e2bb7e33524b1366d919fe92a54ff8c5f785d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 03/69] fix: KD-tree radius search must enter boxes at distance
 exactly the radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From f842c108050acb11f62cb6534ccb4897ebb10fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 04/69] fix: KNearestNeighbors compiles

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..8707e32 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
-- 
2.43.0


From 99370653a8ef3bdca466d9efc7f8e1710f8b0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 05/69] fix: brute-force k-NN vote never replaced its initial
 label

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 8707e32..1a3fbf7 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From 04e6b25e5cffa281ce250e18d28859cb1cdfb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 06/69] fix: kd-tree k-NN votes per query row, not per
 neighbour rank

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 1a3fbf7..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0


From 4f945ec37692525934f06cb08e3798792d46989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 07/69] fix: hash-tree frequency reports no longer accumulate
 earlier reports

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From 659101288278a3b65445114f28d90dccf724310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 08/69] fix: sortrows comparators return a value for equal rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..606b7d7 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 495c31a13c0bcc129c1e308f5914f4eb0fdcdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 09/69] fix: Apriori stops at a level without frequent itemsets
 instead of throwing

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..d99a801 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -161,6 +161,9 @@ protected:
                 curr_frequency.emplace_back(std::make_pair(itemsets_list[i], count_list[i]));
             }
 
+            if (itemsets_list.empty()) {
+                break;
+            }
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
-- 
2.43.0


From fdefbe8db115004c6e0de9ad54a7595bc15f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 10/69] fix: Apriori forgets the itemsets and rules of an
 earlier fit

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index d99a801..acb0c72 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -62,6 +62,8 @@ private:
 
 protected:
     void fit_data(const std::vector<std::vector<DataType>>& X) {    
+        all_frequency_.clear();
+        association_rules_.clear();
         std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
     
         std::vector<DataType> records_order;
-- 
2.43.0


From ae03a05401256af3fe42f209113c10400797f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 11/69] fix: Apriori results no longer depend on item order or
 repetition in a transaction

---
 src/methods/rule_model/apriori.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index acb0c72..7fd2f79 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -76,6 +76,14 @@ protected:
             }
         }
 
+        // levels and transaction subsets are compared as ascending item lists
+        std::sort(records_order.begin(), records_order.end());
+        std::vector<std::vector<DataType>> transactions;
+        for (const auto& row : X) {
+            std::set<DataType> items(row.begin(), row.end());
+            transactions.emplace_back(items.begin(), items.end());
+        }
+
         preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
@@ -143,7 +151,7 @@ protected:
 
             // for each transaction, find all possible subsets of size "length"
             std::vector<std::vector<DataType>> subsets;
-            subsets = generate_k_subsets(X, length);
+            subsets = generate_k_subsets(transactions, length);
             
 
             if (subsets.size() > 0) {
-- 
2.43.0


From 531fc6c1eb81c8e6ee4ecd5419f2af68a4da58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 12/69] fix: SAG averages over the batches, not over the batch
 size

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..d295d5c 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -81,7 +81,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From 66c6b3e8f356566c1e9fce11ed203980e2eda07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 13/69] fix: truncated gradient keeps the penalty each weight
 has received

---
 src/core/optimizer/sgd/tg.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 44572cc..e40879d 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -44,7 +44,6 @@ private:
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
         }
-        cum_l1.setZero();
         return weight;
     }
 
-- 
2.43.0


From fb3311b50c7bf7fcd81da7ed4ad2f84ad306ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 14/69] fix: exponential decay decays

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From e0a23afa99261b134326a4a5dc530c324c357c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 15/69] fix: momentum updates carry their velocity between
 steps

---
 .../sgd/update_policies/momentum_update.hpp        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..b4bd07b 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    // velocity, carried from one update to the next
+    MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -23,12 +25,12 @@ public:
     */
     const MatType update(const MatType& W, 
         const MatType& grad, 
-        const double lr) const{
-        std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(W.rows(), W.cols());
+        }
+        V_ = V_ * static_cast<DataType>(mu_) + grad * static_cast<DataType>(lr);
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
-- 
2.43.0


From 03d8a358b1e685c47350fb774dc0197689df09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 16/69] fix: Nesterov updates compile and carry their velocity
 between steps

---
 .../nesterov_momentum_update.hpp              | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..90c3f9a 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    // velocity, carried from one update to the next
+    MatType V_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -21,17 +23,14 @@ public:
     /**
      * SGD with Nesterov Momentum optimization method
     */
-    const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
-        
-        MatType prev_V(nrows);
-        prev_V = V;
-
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+    const MatType update(const MatType& W, const MatType& grad, const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_ = MatType::Zero(W.rows(), W.cols());
+        }
+        MatType prev_V = V_;
+
+        V_ = mu * V_ + static_cast<DataType>(lr) * grad;
+        MatType updated_W = W - (V_ + mu * (V_ - prev_V));
         return updated_W;
     };
 
-- 
2.43.0


From 3e7bfa87181de4abc07a5d1b45b9961d0033749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 17/69] fix: L-BFGS returns a stationary starting point

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From 03840707d6715620240f8900e54d8dc89a9be0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 18/69] fix: L-BFGS records every objective value its decrease
 test looks back to

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..f42306e 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,12 +162,14 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ > 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
                     break;
                 }
+            }
+            if (past_ > 0) {
                 pfx(k % past_) = fx;
             }
             if ((this->max_iter_ != 0) && (this->max_iter_ < k + 1)) {
-- 
2.43.0


From b27fac6f6938db46434808e04342e0451b7af8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 19/69] fix: line searches never accept a point whose objective
 is not a number

---
 src/core/optimizer/lbfgs/search_policies/backtracking.hpp | 3 ++-
 src/core/optimizer/lbfgs/search_policies/bracketing.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
index 1ea2c97..8583a4b 100644
--- a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
@@ -69,7 +69,8 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            // a value that is not a number is no decrease either
+            if (!(fx <= fx_init + step * dg_test)) {
                 width = dec_factor;
             }
             else {
diff --git a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
index 879d621..d7671c3 100644
--- a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
@@ -70,7 +70,8 @@ public:
 
             ++count;
 
-            if (fx > fx_init + step * dg_test) {
+            // a value that is not a number is no decrease either
+            if (!(fx <= fx_init + step * dg_test)) {
                 step_hi = step;
             }
             else {
-- 
2.43.0


From f4ddf46b7012c74189c10eb0e3e820cc16fea6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 20/69] fix: line searches refuse a direction that is not a
 number

---
 src/core/optimizer/lbfgs/search_policies/backtracking.hpp | 2 +-
 src/core/optimizer/lbfgs/search_policies/bracketing.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
index 8583a4b..7ef0df3 100644
--- a/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/backtracking.hpp
@@ -51,7 +51,7 @@ public:
         const double fx_init = fx;
         const double dg_init = d.dot(g);
 
-        if (dg_init > 0.0) {
+        if (!(dg_init <= 0.0)) {
             std::cout << "Moving direction increases the objective function value" << std::endl;
             return -1;
         }
diff --git a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
index d7671c3..4cbb37e 100644
--- a/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/bracketing.hpp
@@ -51,7 +51,7 @@ public:
         const double fx_init = fx;
         const double dg_init = d.dot(g);
 
-        if (dg_init > 0.0) {
+        if (!(dg_init <= 0.0)) {
             std::cout << "Moving direction increases the objective function value" << std::endl;
             return -1;
         }
-- 
2.43.0


From 0341768b034cb1389c867caccbcf6644528310ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 21/69] fix: hinge-loss gradient accumulates from zero

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From d8f8072f22f7c5a8e02661ac6c1a7674f89b4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 22/69] fix: log loss stays finite when the sigmoid saturates

---
 src/core/loss/log_loss.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/loss/log_loss.hpp b/src/core/loss/log_loss.hpp
index 30dc204..061458d 100644
--- a/src/core/loss/log_loss.hpp
+++ b/src/core/loss/log_loss.hpp
@@ -36,16 +36,14 @@ public:
         std::size_t num_samples = X.rows();
 
         VecType X_w(num_samples); 
-        VecType y_hat(num_samples); 
         X_w = X * W;
-        y_hat = math::sigmoid<VecType>(X_w);
 
-        VecType tmp1 = static_cast<DataType>(-1) * y.array() * 
-            y_hat.array().log();
-        VecType tmp2 = (static_cast<DataType>(1) - y.array()) * 
-            (static_cast<DataType>(1) - y_hat.array()).log();
-        VecType tmp3 = tmp1 - tmp2;
-        double loss = static_cast<double>(tmp3.array().sum()) /
+        // -y * log(s(z)) - (1 - y) * log(1 - s(z)) = max(z, 0) - y * z + log(1 + exp(-|z|)),
+        // which stays finite when s(z) saturates
+        VecType tmp = X_w.array().max(static_cast<DataType>(0)) - 
+            y.array() * X_w.array() + 
+            (-X_w.array().abs()).exp().log1p();
+        double loss = static_cast<double>(tmp.array().sum()) /
             static_cast<double>(num_samples);
 
         double reg = static_cast<double>(W.transpose() * W) / 
-- 
2.43.0


From f43880118679b0fc5dff7ca0c598cf389e370bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 23/69] fix: softmax loss and gradient stay finite for far
 apart scores

---
 src/core/loss/softmax_loss.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..2480621 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -40,20 +40,18 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
-        VecType sum_exp_xw = exp_xw.rowwise().sum();
+        // subtract each row's own largest score
+        VecType max_xw = xw.rowwise().maxCoeff();
+        MatType tmp1 = xw.colwise() - max_xw;
+        VecType sum_exp_xw = tmp1.array().exp().rowwise().sum();
 
         std::size_t index;
-        VecType exp_xw_i(num_samples);
+        double loss = 0.0;
         for (int i = 0; i < num_samples; ++i) {
             index = static_cast<std::size_t>(y(i, 0));
-            exp_xw_i(i, 0) = exp_xw(i, index);
+            loss += std::log(sum_exp_xw(i, 0)) - tmp1(i, index);
         }
 
-        auto tmp2 = exp_xw_i.array() / sum_exp_xw.array();
-        double loss = -tmp2.array().log().sum();
-
         loss /= static_cast<double>(num_samples);
 
         double reg = (W.transpose() * W).array().sum() / 
@@ -78,7 +76,8 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
+        VecType max_xw = xw.rowwise().maxCoeff();
+        MatType tmp1 = xw.colwise() - max_xw;
         MatType exp_xw = tmp1.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
         MatType normalized_exp_xw = exp_xw.array().colwise() / sum_exp_xw.array();
-- 
2.43.0


From 7fff11b13b1d22864259d97333212c8c22875d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 24/69] fix: softmax loss penalises the squared weights its
 gradient assumes

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 2480621..cd86ac2 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -54,7 +54,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = W.array().square().sum() / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From afd8b466832cf3f4f12bf64dbadb676826bb2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 25/69] fix: Huber loss compiles and applies its threshold per
 sample

---
 src/core/loss/huber_loss.hpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..e59e5c5 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,17 +39,17 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double diff = std::abs(static_cast<double>(y(i, 0) - X_w(i, 0)));
+            if (diff <= delta_) {
+                loss += 0.5 * diff * diff;
+            }
+            else {
+                loss += delta_ * diff - 0.5 * delta_ * delta_;
+            }
         }
 
-        // loss = loss / static_cast<double>(num_samples);
+        loss = loss / static_cast<double>(num_samples);
         double reg = static_cast<double>(W.transpose() * W) / 
             (static_cast<double>(num_samples) * 2.0);
 
@@ -57,10 +57,10 @@ public:
     };
 
     /**
-     * Evaluate the gradient of the hinge loss objective function with the given 
+     * Evaluate the gradient of the huber loss objective function with the given 
      * parameters
      * 
-     *      dw = y_i*w*x > 1 : 0 ? -y_i*x
+     *      dw = x * max(-delta, min(delta, x*w - y)) / len(y)
     */
     const VecType gradient(const MatType& X, 
         const VecType& y,
@@ -72,17 +72,9 @@ public:
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
-        }
-        
+        DataType delta = static_cast<DataType>(delta_);
+        VecType diff = (X_w - y).array().min(delta).max(-delta);
+        grad = (X.transpose() * diff) / static_cast<DataType>(num_samples);
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From 60445ea6713f204b0c3f2d24d0c72bf6e7281441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 26/69] fix: lasso, perceptron and softmax regression train on
 the rows with the intercept column

---
 src/methods/linear_model/lasso_regression.hpp   | 8 ++++----
 src/methods/linear_model/perceptron.hpp         | 2 +-
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From d2e28f0907420de755788b276f53a1a21cbacff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 27/69] fix: perceptron trains on the signs of its 0/1 labels

---
 src/methods/linear_model/perceptron.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..a98c722 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,10 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
-        VecType y_new = y;
+        // the hinge loss expects the classes as -1 and 1
+        VecType y_new = y.unaryExpr([](DataType label) {
+            return label > 0 ? static_cast<DataType>(1) : static_cast<DataType>(-1);
+        });
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 472cc13291a2debba3fd3d9eba1f7a6aafa3d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 28/69] fix: logistic regression predicts the class its
 probability favours

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From eeddeef567387f09d46b035cc53387e7355e48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 29/69] fix: logistic regression trained by L-BFGS no longer
 reads an uninitialised penalty

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..d501e15 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -16,10 +16,10 @@ private:
 
     bool shuffle_;
     bool verbose_;
-    double alpha_;
-    double lambda_;
+    double alpha_ = 0.1;
+    double lambda_ = 0.0;
     double tol_;
-    double l1_ratio_;
+    double l1_ratio_ = 1.0;
     double ftol_;
     double wolfe_;
     double delta_;
-- 
2.43.0


From 893559c1b08393f31372c55369f3ece624720b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 30/69] fix: logistic regression compiles for float

---
 src/methods/linear_model/logistic_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index d501e15..e6cc2cd 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -101,7 +101,7 @@ protected:
                         verbose_);
             }
             else if (solver_ == "lbfgs") {
-                optimizer::LineSearchParams<double> linesearch_params(
+                optimizer::LineSearchParams<DataType> linesearch_params(
                     ftol_, wolfe_, max_linesearch_, linesearch_condition_
                 );
                 opt = std::make_unique<optimizer::LBFGS<DataType, 
-- 
2.43.0


From 649bb1e1b452c50b874ef8a49080cdd347d87820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 31/69] fix: optimizers are destroyed through a virtual
 destructor

---
 src/core/optimizer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..5170d4b 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -88,7 +88,7 @@ public:
             shuffle_(shuffle),
             verbose_(verbose) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
-- 
2.43.0


From a4388789e470677dd236ceb1ac5caecd2406a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 32/69] fix: get_coef returns the coefficients of every class

---
 src/methods/linear_model/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/base.hpp b/src/methods/linear_model/base.hpp
index f572e1a..9dd6b91 100644
--- a/src/methods/linear_model/base.hpp
+++ b/src/methods/linear_model/base.hpp
@@ -71,7 +71,7 @@ public:
     ~BaseLinearModel() {};
 
     /**public get_coef interface*/
-    const VecType get_coef() const {
+    const MatType get_coef() const {
         return w_;
     };
 
-- 
2.43.0


From 955e6536c08671a8aa9affcfc7276e3af0e740ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 33/69] fix: softmax regression adds its intercept to the
 scores

---
 src/methods/linear_model/softmax_regression.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..348b065 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -84,10 +84,8 @@ protected:
         std::size_t num_classes = this->w_.cols();
         MatType boundary(num_samples, num_classes);
         if (this->intercept_) {
-            auto xw = X * this->w_.topRows(num_features);
-            // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
-            auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = X * this->w_.topRows(num_features);
+            boundary += this->w_.bottomRows(1).colwise().replicate(num_samples);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From bd7d49fb0bbc57b144df23eed107ed0b7e484714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 34/69] fix: softmax regression accepts and predicts any label
 values

---
 src/methods/linear_model/softmax_regression.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index 348b065..21b8f74 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -27,7 +27,8 @@ private:
     std::string solver_;
     std::string penalty_;
 
-    // MatType boundary_;
+    // sorted labels of the training data, one per column of the weights
+    std::vector<DataType> labels_;
 
 protected:
         /**
@@ -51,6 +52,11 @@ protected:
 
         std::set<DataType> label_set{y_new.begin(), y_new.end()};
         std::size_t num_classes = label_set.size();
+        // the loss numbers the classes 0..num_classes - 1
+        labels_.assign(label_set.begin(), label_set.end());
+        for (auto& label : y_new) {
+            label = std::lower_bound(labels_.begin(), labels_.end(), label) - labels_.begin();
+        }
         num_features = X_new.cols();
 
         MatType w(num_features, num_classes);
@@ -150,7 +156,10 @@ public:
         auto boundary = compute_decision_boundary(X);
         auto prob = math::softmax<MatType>(boundary, 1);
         auto tmp = common::argmax<MatType, VecType, IdxVecType>(prob, 1);
-        y_pred = tmp.template cast<DataType>();
+        y_pred.resize(tmp.size());
+        for (Eigen::Index i = 0; i < tmp.size(); ++i) {
+            y_pred(i) = labels_[tmp(i)];
+        }
         return y_pred;
     };
 
-- 
2.43.0


From 6e94fcc1155f3196ce863d8603d80b658de9764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 35/69] fix: softmax of a single row or column

---
 src/core/math/extmath.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..080fd41 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -234,10 +234,6 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
-        throw std::invalid_argument("Input ndarray should be 2 dimension");
-    }
-
     MatType c, div, retval;
     if (axis == 0) {
         c = x.colwise().maxCoeff().colwise().replicate(nrows);
-- 
2.43.0


From 3bf57912c8c80cc33416acc4d9a4929505e94392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 36/69] fix: naive Bayes no longer reads one column past the
 training data

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..a99fccf 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From 5ff5d2e6f7f2e561846bbf5a6b012f03b84264de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 37/69] fix: Gaussian naive Bayes adds each class its own log
 prior

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index a99fccf..2039dc7 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From 74072c8d07ef5d30507950bf399142402189b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 38/69] fix: Gaussian naive Bayes accessors return the
 per-class matrices

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2039dc7..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From b88cff125662558868923cf9873383c8bb985e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 39/69] fix: multinomial naive Bayes stores the feature counts
 of a class as a column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From b667b90b6b1553232a8809edf11ea41d33e68e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 40/69] fix: naive Bayes forgets the classes of an earlier fit

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From 89a23b5b8f027c5e0e2a0c6619c5115cf09467a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 41/69] fix: naive Bayes predicts labels, not class positions

---
 src/methods/naive_bayes/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index 0932b5f..696bf00 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -104,7 +104,10 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred(num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            y_pred(i) = classes_(argmax_jll(i));
+        }
         return y_pred;
     }
 
-- 
2.43.0


From 113d83a9234ab716630ec126caf1ec177e82de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 42/69] fix: decision trees only make splits that leave enough
 rows on both sides

---
 src/methods/tree/base.hpp                     | 10 ++++++++--
 src/methods/tree/decision_tree_classifier.hpp |  2 +-
 src/methods/tree/decision_tree_regressor.hpp  |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..98221e4 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -45,10 +45,12 @@ protected:
      * Iterate through all unique values of feature column i and 
      * calculate the impurity. If this threshold resulted in a 
      * higher information gain than previously recorded save 
-     * the threshold value and the feature index
+     * the threshold value and the feature index. A split must leave
+     * rows, and at least min_samples_leaf of them, on both sides.
     */
     const std::tuple<double, std::size_t, DataType> best_split(const MatType& X, 
-            const VecType& y) const {
+            const VecType& y, 
+            std::size_t min_samples_leaf) const {
         
         std::size_t num_features = X.cols();
         
@@ -62,6 +64,10 @@ protected:
             for (auto& threshold : feature_values) {
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
+                if (left_index.size() < std::max<std::size_t>(min_samples_leaf, 1) || 
+                    right_index.size() < std::max<std::size_t>(min_samples_leaf, 1)) {
+                    continue;
+                }
 
                 VecType left_y, right_y;
                 left_y = y(left_index);
diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..c717500 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -169,7 +169,7 @@ protected:
         DataType best_feature_value = ConstType<DataType>::quiet_NaN();
         double best_impurity = ConstType<double>::min();
 
-        std::tie(best_impurity, best_feature_index, best_feature_value) = this->best_split(X, y);
+        std::tie(best_impurity, best_feature_index, best_feature_value) = this->best_split(X, y, min_samples_leaf_);
         if (best_feature_index == ConstType<std::size_t>::max()) {
             return ;
         }
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..7fa7811 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -173,7 +173,7 @@ protected:
         DataType best_feature_value = ConstType<DataType>::quiet_NaN();
         double best_impurity = ConstType<double>::min();
 
-        std::tie(best_impurity, best_feature_index, best_feature_value) = this->best_split(X, y);
+        std::tie(best_impurity, best_feature_index, best_feature_value) = this->best_split(X, y, min_samples_leaf_);
         if (best_feature_index == ConstType<std::size_t>::max()) {
             return ;
         }
-- 
2.43.0


From 9dc71bbe35589a366338ff7712725a9a284b705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 43/69] fix: decision-tree classifier forgets the classes of an
 earlier fit

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index c717500..bbe4f44 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -263,6 +263,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From a34e5c518573937e1eaef45cd803239b4a74bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 44/69] fix: decision-tree classifier predicts labels, not
 class positions

---
 src/methods/tree/decision_tree_classifier.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index bbe4f44..1ca67f9 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -301,9 +301,14 @@ public:
         auto y_pred_index = common::argmax<MatType, VecType, IdxVecType>(log_prob, 1);
         VecType y_pred_value(num_samples);
         
+        std::vector<DataType> labels;
+        for (auto& label : label_count_) {
+            labels.push_back(label.first);
+        }
+
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            y_pred_value(i) = labels[index];
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From 24e0c6eb8fb02776aa2f8174a105bc0a77899992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 45/69] fix: gini splits are scored by their impurity decrease

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 1ca67f9..17d4d85 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -93,7 +93,7 @@ protected:
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = math::gini<VecType>(y) - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From c070b255b5150696be0a70a7e1cce5374d04492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 46/69] fix: regression-tree criteria weigh the sides of a
 split by their share of the rows

---
 src/methods/tree/decision_tree_regressor.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 7fa7811..9373639 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 7534ee4cc4a53f636e2c8989754a6f3f201af685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 47/69] fix: regression trees compare a standard deviation with
 min_stdev

---
 src/methods/tree/decision_tree_regressor.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 9373639..f75bfb9 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -129,9 +129,8 @@ protected:
         auto y_bar = math::mean<MatType>(y, -1);
         VecType y_centered = y.array() - y_bar.value();
 
-        double stdev_error = std::sqrt(
-            static_cast<double>(y_centered.norm()) / static_cast<double>(num_samples)
-        );
+        double stdev_error = static_cast<double>(y_centered.norm()) / 
+            std::sqrt(static_cast<double>(num_samples));
 
         return std::make_tuple(y_bar.value(), stdev_error); 
     }
-- 
2.43.0


From a8d2ee64ee5d54b26024e8faa2174090c71beaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 48/69] fix: k-means stores the mean of a cluster as a row

math::mean along axis 0 already returns a row; assigning its transpose to a
row of the centroids fails Eigen's size assertion for more than one feature.
---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From ff525d937cbeed24519d5bb29b6be27c0b872acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 49/69] fix: tied Gaussian mixtures use the shared log
 determinant for every component

---
 src/methods/mixture/gaussian_mixture.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..0c6b35c 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -266,7 +266,11 @@ private:
         std::size_t num_samples = X.rows(), num_features = X.cols();
         std::size_t num_components = means.rows();
 
-        VecType log_det = compute_log_det_cholesky(precisions_cholesky_);
+        VecType log_det = compute_log_det_cholesky(precision_chol);
+        if (covariance_type_ == "tied") {
+            // all components share the one precision
+            log_det = VecType::Constant(num_components, log_det(0)).eval();
+        }
 
         MatType log_prob(num_samples, num_components);
 
-- 
2.43.0


From 824ed85a6029e19e937b3d974eda98fdeffe60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 50/69] fix: Gaussian mixtures forget the precisions of an
 earlier fit

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 0c6b35c..e608731 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -508,6 +508,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From 8cf504c260f3ccc05010537f656e48a4f1611701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 51/69] fix: exact_svd compiles for float

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..c642f61 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -108,13 +108,13 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
     // For small matrice (<16), it is thus preferable to directly use JacobiSVD. 
     // For larger matrice, BDCSVD
     if (num_features < 16) {
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::JacobiSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
     }
     else {
-        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::BDCSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
-- 
2.43.0


From 3ebb60dc8d712643942eb0e416fb7b624bb4e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 52/69] fix: randomized_svd takes the thin SVD of the projected
 matrix

The full one has more right singular vectors than left ones, which svd_flip
cannot pair when the sketch is narrower than the matrix.
---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index c642f61..bb443f4 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -193,7 +193,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 0c73c3c3809cee93f18fc37f3d1612af3c12c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 53/69] fix: math::lu returns factors of the matrix

The factors of Eigen's full-pivoting LU were returned without the column
permutation and with the inverse of P, so P * L * U was not x and P * L did
not span the range of x.
---
 src/core/math/linalg.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index bb443f4..8a9ed1a 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,9 +25,25 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
 
-    MatType lu_m = lu_decomposition.matrixLU();
+    // elimination with row pivoting only: x = P * L * U
+    MatType lu_m = x;
+    Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> rows(nrows);
+    rows.setIdentity();
+    for (std::size_t k = 0; k < min_size; ++k) {
+        Eigen::Index pivot;
+        lu_m.col(k).tail(nrows - k).cwiseAbs().maxCoeff(&pivot);
+        pivot += k;
+        if (lu_m(pivot, k) == 0) {
+            continue;
+        }
+        lu_m.row(k).swap(lu_m.row(pivot));
+        rows.applyTranspositionOnTheRight(k, pivot);
+        lu_m.col(k).tail(nrows - k - 1) /= lu_m(k, k);
+        lu_m.bottomRightCorner(nrows - k - 1, ncols - k - 1).noalias() -= 
+            lu_m.col(k).tail(nrows - k - 1) * lu_m.row(k).tail(ncols - k - 1);
+    }
+
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
     L = L.leftCols(min_size).eval();
@@ -36,8 +52,7 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
     MatType U = lu_m.template triangularView<Eigen::Upper>();
     U = U.topRows(min_size).eval();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    MatType P = rows;
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 876a927f6d32d904d8565e6df3008d52e9c79bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 54/69] fix: PCA centres new data with the mean of the training
 data

---
 src/methods/decomposition/pca.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..24d9248 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,6 +28,7 @@ private:
 
     std::string solver_;
     double noise_var_;
+    MatType mean_;
 
 protected:
     void fit_data(const MatType& X) {
@@ -35,6 +36,7 @@ protected:
 
         MatType centered_X;
         centered_X = math::center<MatType>(X);
+        mean_ = math::mean<MatType>(X, 0);
         
         MatType components;
         VecType explained_var;
@@ -73,7 +75,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X - common::repeat<MatType>(mean_, num_samples, 0);
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +149,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X - common::repeat<MatType>(mean_, num_samples, 0);
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From c43ce998241472c76507138b5d6e311ac84d9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 55/69] fix: PCA score and precision no longer depend on an
 earlier get_covariance call

---
 src/methods/decomposition/pca.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 24d9248..0ad3770 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -69,6 +69,10 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        // score and get_precision answer for this fit
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From 65253aaec588a0fef43e3a98565bb8a793f72b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 56/69] fix: loading into std vectors replaces what they held
 before

---
 src/core/data/load.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..9f59088 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -54,6 +54,7 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file could not be opened.");
         exit(0);
     }
+    X.clear();
     for (std::string line; std::getline(fin, line); ) {
         std::stringstream str_stream(line);
         std::vector<DataType> row;
@@ -92,7 +93,8 @@ void loadtxt(const std::string &fp,
     }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
-- 
2.43.0


From b9fa14c8373c4ae4c647d11d5cfa50206c7a3c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 57/69] fix: loading a labelled file skips blank lines and
 refuses empty or ragged files

---
 src/core/data/load.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 9f59088..bb70d73 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -31,8 +31,17 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
         stdmat.push_back(row);
     }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file has no data.");
+    }
 
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
@@ -89,8 +98,17 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (row.empty()) {
+            continue;
+        }
+        if (!stdmat.empty() && row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different lengths.");
+        }
         stdmat.push_back(row);
     }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file has no data.");
+    }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.assign(nrows, std::vector<DataType>(ncols - 1));
-- 
2.43.0


From 9f0dcceef6d2c955366df206c0ce6892eb9ba8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 58/69] fix: argsort of a std::vector wrote its result into an
 empty vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 606b7d7..a291de0 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -803,7 +803,7 @@ std::vector<DataType> difference(const std::vector<DataType>& v1,
 template<typename DataType>
 const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reverse = false) {
     
-    std::vector<std::size_t> indices;
+    std::vector<std::size_t> indices(x.size());
     std::vector<std::pair<DataType, std::size_t>> combine;
     for (int i = 0; i < x.size(); ++i) {
         combine.push_back(std::make_pair(x[i], i));
-- 
2.43.0


From 35167c6c83d7e4c136b0c271be5e44f017f784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 59/69] fix: is_equal read past the end of a shorter second
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index a291de0..8413f16 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From a1310d511ba0283e1d60cd722a41f7fbfcbb5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 60/69] fix: slice checked columns against the number of rows,
 did not bound the end index and read past the end of a 1d vector

---
 src/core/common.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 8413f16..091d064 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -844,14 +844,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[0].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
@@ -882,7 +882,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -892,7 +892,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec.assign(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 0f27de0b12dae0b941c7ec2383dda79dc637d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 61/69] fix: unique reported positions in a sorted copy instead
 of indices of the input array

---
 src/core/common.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 091d064..1f5406a 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -414,25 +414,15 @@ std::tuple<VecType, VecType> unique(const VecType& x){
     std::vector<DataType> stdvec_index;
     std::vector<DataType> stdvec_value;
 
-    // convert the input vector to std vector
-    std::vector<DataType>  stdvec_x;
+    // first position of every value in the input vector
+    std::map<DataType, std::size_t> hash_map;
     for (std::size_t i = 0; i < x.rows(); i++) {
-        stdvec_x.push_back(x(i, 0));
+        hash_map.insert(std::make_pair(x(i, 0), i));
     }
-
-    std::sort(stdvec_x.begin(), stdvec_x.end());
-    auto first = std::begin(stdvec_x), last = std::end(stdvec_x);
-    std::set<std::size_t> hash_set;
-    std::map<DataType, std::size_t> hash_map;
-    for(std::size_t i = 0; first != last; ++i, ++first){
-        auto iter_pair = hash_map.insert(std::make_pair(*first, i));
-        if(iter_pair.second){
-            stdvec_value.push_back(iter_pair.first->first);
-            hash_set.insert(iter_pair.first->second);
-            hash_set.insert(i);
-        }
+    for (const auto& value_index : hash_map) {
+        stdvec_value.push_back(value_index.first);
+        stdvec_index.push_back(value_index.second);
     }
-    stdvec_index = {hash_set.begin(), hash_set.end()};
 
     VecType retvec_value = Eigen::Map<VecType>(stdvec_value.data(), stdvec_value.size(), 1);
     VecType retvec_index = Eigen::Map<VecType>(stdvec_index.data(), stdvec_index.size(), 1);
-- 
2.43.0


From 8a0eaeb30c1824843bbeb74c716841e02cd4a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 62/69] fix: var lost all digits of the variance of data far
 from zero

---
 src/core/math/ops.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..5c39f52 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -38,26 +38,23 @@ AnyType cov(const AnyType& x) {
 template<typename MatType>
 MatType var(const MatType& x, int axis = -1) {
     MatType copy_x = x;
-    // Var(X)=E[X^2]-(E[X])^2
+    // Var(X)=E[(X-E[X])^2]
     if (axis == 0) {
-        auto colmean = copy_x.colwise().mean();                                      
-        auto x_squared_mean = copy_x.array().square().colwise().mean();
-        auto colvar = x_squared_mean.array() - colmean.array().square();
+        MatType colmean = copy_x.colwise().mean();
+        MatType centered = copy_x - colmean.replicate(copy_x.rows(), 1);
 
-        return colvar; 
+        return centered.array().square().colwise().mean();
     }
     else if (axis == 1) {
-        auto rowmean = copy_x.rowwise().mean();
-        auto x_squared_mean = copy_x.array().square().rowwise().mean();
-        auto rowvar = x_squared_mean.array() - rowmean.array().square();
+        MatType rowmean = copy_x.rowwise().mean();
+        MatType centered = copy_x - rowmean.replicate(1, copy_x.cols());
 
-        return rowvar;
+        return centered.array().square().rowwise().mean();
     }
     else if (axis == -1) {
         auto mean = copy_x.mean();
-        auto x_squared_mean = copy_x.array().square().mean();
         MatType var(1, 1);
-        var(0, 0) = x_squared_mean - std::pow(mean, 2);
+        var(0, 0) = (copy_x.array() - mean).square().mean();
         return var;
     }
     else {
-- 
2.43.0


From 9eb8ef5b5fdd41842392bcd009d03dd66862e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 63/69] fix: explained_variance_score lost the variance of
 targets far from zero

---
 src/core/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index 66f13a9..0d47d9b 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -39,8 +39,8 @@ double explained_variance_score(const VecType& y_true,
     // auto retval = 1.0 -  static_cast<double>(y_diff_var / y_var);
 
     VecType y_diff = y_pred - y_true;
-    auto y_diff_var = y_diff.array().square().mean() - std::pow(y_diff.mean(), 2);
-    auto y_var = y_true.array().square().mean() - std::pow(y_true.mean(), 2);
+    auto y_diff_var = (y_diff.array() - y_diff.mean()).square().mean();
+    auto y_var = (y_true.array() - y_true.mean()).square().mean();
     return 1.0 - static_cast<double>(y_diff_var / y_var);
 };
 
-- 
2.43.0


From cea91ba26e4f6dc9dd21f94df19ba87fc786a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:27 +0000
Subject: [PATCH 64/69] fix: eig did not compile, it assigned complex
 eigenvalues and vectors to a real matrix

---
 src/core/math/linalg.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 8a9ed1a..ba024b6 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -370,9 +370,17 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
         throw std::runtime_error(err_msg.str());
     }
 
+    if ((eigs.eigenvalues().imag().array() != 0).any()) {
+        std::ostringstream err_msg;
+        err_msg << "Eigen decomposition was not successful, "
+                << "the eigenvalues of the input are complex."
+                << std::endl;
+        throw std::runtime_error(err_msg.str());
+    }
+
     MatType vals, vecs;
-    vals = eigs.eigenvalues().template cast<DataType>();
-    vecs = eigs.eigenvectors();
+    vals = eigs.eigenvalues().real();
+    vecs = eigs.eigenvectors().real();
 
     return std::make_tuple(vals, vecs);
 }
-- 
2.43.0


From 160e2181c86ba6886eb26c7133f017cfb18c32e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 65/69] fix: destroying a copy of a KDTree emptied the nodes it
 shares with the original

---
 src/core/tree/kd_tree.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..c1b403c 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -394,11 +394,7 @@ public:
             build_tree();
         };
 
-    ~KDTree() {
-        if (tree_ != nullptr) {
-            tree_->clear();
-        }
-    };
+    ~KDTree() {};
 
     const std::pair<MatType, IdxMatType> query(
         const MatType& data, 
-- 
2.43.0


From 28b3457959b9c6ac707cfb74b91fdec7ad6c93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:40 +0000
Subject: [PATCH 66/69] fix: hash tree stores and counts itemsets of different
 lengths

---
 src/core/tree/hash_tree.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index a0e19c7..11d0f40 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -60,28 +60,31 @@ protected:
                 // bucket is a map struct and key is vector
                 // bucket has reached its maximum capacity its intermediate 
                 // node so split and redistribute entries
+                std::map<std::vector<DataType>, std::size_t> ended;
                 for (auto bucket : node->bucket) {
+                    // an itemset without a further item stays at this node
+                    if (index == bucket.first.size()) {
+                        ended.insert(bucket);
+                        continue;
+                    }
                     key = hash(bucket.first[index]);
                     if (node->children.find(key) == node->children.end()) {
                         node->children[key] = std::make_shared<NodeType>();
                     }
                     insert(node->children[key], bucket.first, bucket.second, index + 1);
                 }
-                node->bucket.clear();
+                node->bucket = ended;
                 node->is_leaf = false;
             }   
         }
     }
 
     void dfs(std::shared_ptr<NodeType>& node, std::size_t support) {
-        if (node->is_leaf) {
-            for (auto& bucket : node->bucket) {
-                if (bucket.second >= support) {
-                    itemset_list_.emplace_back(bucket.first);
-                    count_list_.emplace_back(bucket.second);
-                }
+        for (auto& bucket : node->bucket) {
+            if (bucket.second >= support) {
+                itemset_list_.emplace_back(bucket.first);
+                count_list_.emplace_back(bucket.second);
             }
-            return ;
         }
         for (auto& child : node->children) {
             dfs(child.second, support);
@@ -122,7 +125,7 @@ public:
         std::size_t index = 0;
         std::shared_ptr<NodeType> node = root_;
         while (true) {
-            if (node->is_leaf) {
+            if (node->is_leaf || index == itemset.size()) {
                 if (node->bucket.find(itemset) != node->bucket.end()) {
                     ++(node->bucket[itemset]);
                 }
-- 
2.43.0


From addba9e5877ebc506faf04261693f57d25fa3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:31 +0000
Subject: [PATCH 67/69] fix: eig never refuses a symmetric matrix because of
 rounding

---
 src/core/math/linalg.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index ba024b6..9a6ab7d 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -361,6 +361,16 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
         throw std::invalid_argument(err_msg.str());
     } 
 
+    // rounding must not turn the real spectrum of a symmetric matrix complex
+    if (x.isApprox(x.transpose(), 10 * Eigen::NumTraits<DataType>::epsilon())) {
+        Eigen::SelfAdjointEigenSolver<MatType> symmetric(x);
+        if (symmetric.info() == Eigen::Success) {
+            MatType vals = symmetric.eigenvalues();
+            MatType vecs = symmetric.eigenvectors();
+            return std::make_tuple(vals, vecs);
+        }
+    }
+
     Eigen::EigenSolver<MatType> eigs(x);
     if (eigs.info() != Eigen::Success) {
         std::ostringstream err_msg;
-- 
2.43.0


From 7a63b667529d49399d59e7a9fa72cb8dd168822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:31 +0000
Subject: [PATCH 68/69] fix: KD-tree query refuses more neighbours than there
 are points

---
 src/core/tree/kd_tree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index c1b403c..1172285 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -400,6 +400,13 @@ public:
         const MatType& data, 
         std::size_t k) const {
         
+        if (k > static_cast<std::size_t>(data_.rows())) {
+            std::ostringstream err_msg;
+            err_msg << "Expected at most " << data_.rows()
+                    << " neighbors, got " << k << "." << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
+
         std::size_t num_samples = data.rows();
         MatType distances(num_samples, k);
         IdxMatType indices(num_samples, k);
-- 
2.43.0


From ec3784a9371327c580a0120c2083c683f371608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:20 +0000
Subject: [PATCH 69/69] fix: TruncatedGradient compiles for float

---
 src/core/optimizer/sgd/tg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index e40879d..060de48 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -36,10 +36,10 @@ private:
         for (std::size_t j = 0; j < num_features; ++j) {
             DataType w_j = weight(j, 0);
             if (w_j > 0.0) {
-                weight(j, 0) = std::max(0.0, w_j - (max_cum_l1 + cum_l1(j, 0)));
+                weight(j, 0) = std::max<DataType>(0.0, w_j - (max_cum_l1 + cum_l1(j, 0)));
             }
             else if (w_j < 0.0) {
-                weight(j, 0) = std::min(0.0, w_j + (max_cum_l1 - cum_l1(j, 0)));
+                weight(j, 0) = std::min<DataType>(0.0, w_j + (max_cum_l1 - cum_l1(j, 0)));
             }
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
-- 
2.43.0

