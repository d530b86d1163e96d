From 78601a50625ff5a3ecffdc0ea0f5fc50e86dcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 01/21] fix: GenericPriorFactor returns exactly one Jacobian
 when its variable is constant

---
 src/factorama/generic_prior_factor.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/factorama/generic_prior_factor.hpp b/src/factorama/generic_prior_factor.hpp
index 3ce2d6d..6ab81d6 100644
--- a/src/factorama/generic_prior_factor.hpp
+++ b/src/factorama/generic_prior_factor.hpp
@@ -62,8 +62,7 @@ namespace factorama
             }
 
             if (variable_->is_constant()) {
-                jacobians.emplace_back(); // Empty Jacobian if variable is constant
-                jacobians[0] = Eigen::MatrixXd();
+                jacobians[0] = Eigen::MatrixXd(); // Empty Jacobian if variable is constant
             } else {
                 if (jacobians[0].rows() != size_ || jacobians[0].cols() != size_) {
                     jacobians[0].resize(size_, size_);
-- 
2.43.0


From 5de45d7057ed0b8477905ad56a020dd56c4641b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 02/21] fix: CoordinateTransformFactor resizes a wrong-sized
 Jacobian list to its five variables

---
 src/factorama/coordinate_transform_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/coordinate_transform_factor.hpp b/src/factorama/coordinate_transform_factor.hpp
index e03e72d..e877ab3 100644
--- a/src/factorama/coordinate_transform_factor.hpp
+++ b/src/factorama/coordinate_transform_factor.hpp
@@ -116,7 +116,7 @@ namespace factorama
                 jacobians_out.resize(5);
             } else if (jacobians_out.size() != 5) {
                 jacobians_out.clear();
-                jacobians_out.resize(2);
+                jacobians_out.resize(5);
             }
 
             if (rot_AB_->is_constant()) {
-- 
2.43.0


From fbe8060ea61fe6f72c1c493ebf95334992ae504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 03/21] fix: HuberKernel Jacobians are the derivative of the
 weighted residual

---
 src/factorama/kernels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index c95bf77..ecbecb3 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -56,7 +56,7 @@ namespace factorama
 
             // Chain rule: w * J_r + r * (w_deriv) * (r^T * J_r) / ||r||
             double w = std::sqrt(delta_ / r_norm);
-            double w_deriv = -0.5 * delta_ / (r_norm * r_norm * r_norm);
+            double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
-- 
2.43.0


From 0b7cc1b8d951bf7c30127d0206c068f7eeb0a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 04/21] fix: PlaneFactor with distance scaling measures the
 same signed distance n.p + d

---
 src/factorama/plane_factor.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/factorama/plane_factor.cpp b/src/factorama/plane_factor.cpp
index f7e4000..ee8d490 100644
--- a/src/factorama/plane_factor.cpp
+++ b/src/factorama/plane_factor.cpp
@@ -55,7 +55,7 @@ namespace factorama
             // Extract values
             Eigen::Vector3d p = point_var_->value();       // 3D point
             Eigen::Vector3d n = plane_var_->unit_vector(); // unit normal
-            double d = plane_var_->distance_from_origin(); // plane offset: n·x = d
+            double d = plane_var_->distance_from_origin(); // plane offset: n·x + d = 0
 
             // Range term
             Eigen::Vector3d diff = p - dist_scaling_p0_;
@@ -63,7 +63,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             Eigen::VectorXd res(1);
             res(0) = weight_ * (dist / scale);
@@ -91,7 +91,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
             result(0) = weight_ * (dist / scale);
         }
     }
@@ -158,7 +158,7 @@ namespace factorama
             double scale = 1.0 + r / dist_scaling_r0_;
 
             // Signed distance
-            double dist = n.dot(p) - d;
+            double dist = n.dot(p) + d;
 
             // Common partials
             Eigen::Vector3d dscale_dp = Eigen::Vector3d::Zero();
@@ -207,7 +207,7 @@ namespace factorama
                 Eigen::Vector3d p_tangent = p - p_dot_n * n;
 
                 jacobians[1].block<1, 3>(0, 0) = weight_ * (p_tangent.transpose() / scale);
-                jacobians[1](0, 3) = weight_ * (-1.0 / scale);
+                jacobians[1](0, 3) = weight_ * (1.0 / scale);
             }
         }
     }
-- 
2.43.0


From 73e2d8eb07e3f34db68973b6ce38014b127b6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 05/21] fix: variables reject value and increment vectors of
 the wrong size

---
 src/factorama/inverse_range_variable.cpp | 3 +++
 src/factorama/landmark_variable.hpp      | 8 +++++++-
 src/factorama/pose_variable.cpp          | 3 +++
 src/factorama/rotation_variable.hpp      | 6 ++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/factorama/inverse_range_variable.cpp b/src/factorama/inverse_range_variable.cpp
index 9fef464..decbabf 100644
--- a/src/factorama/inverse_range_variable.cpp
+++ b/src/factorama/inverse_range_variable.cpp
@@ -28,6 +28,9 @@ namespace factorama
 
     void InverseRangeVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         inverse_range_value_ = x;
         clip_inverse_range();
     }
diff --git a/src/factorama/landmark_variable.hpp b/src/factorama/landmark_variable.hpp
index dbcb625..19c756a 100644
--- a/src/factorama/landmark_variable.hpp
+++ b/src/factorama/landmark_variable.hpp
@@ -33,7 +33,13 @@ namespace factorama
 
         const Eigen::VectorXd& value() const override { return pos_W_; }
 
-        void set_value_from_vector(const Eigen::VectorXd& x) override { pos_W_ = x; }
+        void set_value_from_vector(const Eigen::VectorXd& x) override
+        {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
+            pos_W_ = x;
+        }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index a9cd304..403569e 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -25,6 +25,9 @@ namespace factorama
 
     void PoseVariable::set_value_from_vector(const Eigen::VectorXd& x)
     {
+        if (x.size() != size()) {
+            throw std::runtime_error("set_value_from_vector(): size mismatch");
+        }
         pose_CW_ = x;
         recompute_dcm_CW();
     }
diff --git a/src/factorama/rotation_variable.hpp b/src/factorama/rotation_variable.hpp
index 04e6c30..3f0ed42 100644
--- a/src/factorama/rotation_variable.hpp
+++ b/src/factorama/rotation_variable.hpp
@@ -42,12 +42,18 @@ namespace factorama
 
         void set_value_from_vector(const Eigen::VectorXd& x) override
         {
+            if (x.size() != size()) {
+                throw std::runtime_error("set_value_from_vector(): size mismatch");
+            }
             value_ = x;
             dcm_AB_ = ExpMapSO3(x);
         }
 
         void apply_increment(const Eigen::VectorXd& dx) override
         {
+            if (dx.size() != size()) {
+                throw std::runtime_error("apply_increment(): size mismatch");
+            }
             dcm_AB_ = ExpMapSO3(dx) * dcm_AB_;
             value_ = LogMapSO3(dcm_AB_);
         }
-- 
2.43.0


From 1bd71edc8021e0ee5bbfc533a48068c5c566833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 06/21] fix: finalize_structure invalidates results cached for
 the previous structure

---
 src/factorama/factor_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index d1be0ca..2642deb 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -231,6 +231,12 @@ namespace factorama
 
     void FactorGraph::finalize_structure()
     {
+        // Everything computed for a previous structure is out of date, also if finalizing fails below
+        structure_finalized_ = false;
+        residual_valid_ = false;
+        jacobian_valid_ = false;
+        sparse_jacobian_valid_ = false;
+
         variable_placement_.clear();
         factor_placement_.clear();
 
-- 
2.43.0


From 46b92b51e9aca57ada73f018e12e4638d715baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 07/21] fix: a graph that grew must be finalized again before
 it is evaluated

---
 src/factorama/factor_graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 2642deb..ff98c06 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -13,6 +13,7 @@ namespace factorama
         }
         variables_map_[variable->id()] = variable.get();
         variables_vector_.push_back(variable);
+        structure_finalized_ = false;
     }
 
     void FactorGraph::add_factor(const std::shared_ptr<Factor>& factor)
@@ -23,6 +24,7 @@ namespace factorama
         }
         factors_map_[factor->id()] = factor.get();
         factors_.push_back(factor);
+        structure_finalized_ = false;
     }
 
     Variable *FactorGraph::get_variable(int id) const
-- 
2.43.0


From d2ca45aa902cdac42f6a104e2b5894060eb145b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 08/21] fix: factor placements are stored under the factor id
 they are looked up by

---
 src/factorama/factor_graph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index ff98c06..7db697d 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -291,7 +291,7 @@ namespace factorama
             }
 
 
-            factor_placement_[i] = placement;
+            factor_placement_[factor->id()] = placement;
             row_offset += placement.residual_dim;
         }
 
@@ -309,7 +309,7 @@ namespace factorama
         Eigen::VectorXi num_sparse_rows = Eigen::VectorXi::Zero(num_values_);
         // for (const auto &fp : factor_placement_)
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             // const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
             for (auto& var : fp.factor->variables()) {
@@ -340,7 +340,7 @@ namespace factorama
         std::vector<int> current_row_index(num_values_, 0);
 
         for (size_t i = 0; i < factors_.size(); i++) {
-            auto& fp = factor_placement_[i]; // TODO : switch to ID eventually
+            auto& fp = factor_placement_[factors_[i]->id()];
             const int row_base = fp.residual_index;
             const int row_dim = fp.residual_dim;
 
@@ -390,7 +390,7 @@ namespace factorama
         for (size_t factor_ind = 0; factor_ind < factors_.size(); factor_ind++)
         // for (const auto &it : factor_placement_)
         {
-            auto factor_placement = factor_placement_[factor_ind];
+            auto factor_placement = factor_placement_[factors_[factor_ind]->id()];
             // auto factor_placement = it.second;
             const auto& factor = factor_placement.factor;
             // const int row_offset = factor_placement.residual_index;
-- 
2.43.0


From 373bc8334a45090934c8f110928f3b874899ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 09/21] fix: set_variable_values_from_vector rejects vectors of
 the wrong size

---
 src/factorama/factor_graph.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index 7db697d..ef0f4d0 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -73,6 +73,15 @@ namespace factorama
 
     void FactorGraph::set_variable_values_from_vector(const Eigen::VectorXd& x)
     {
+        if (!structure_finalized_) {
+            throw std::runtime_error("set_variable_values_from_vector: must call finalize_structure() first");
+        }
+
+        if (x.size() != num_values_) {
+            throw std::runtime_error("set_variable_values_from_vector: vector size (" + std::to_string(x.size()) +
+                                     ") does not match expected size (" + std::to_string(num_values_) + ")");
+        }
+
         int offset = 0;
         for (const auto& var : variables_vector_) {
             if (!var->is_constant()) {
-- 
2.43.0


From c63d50f823558e0c28c2f0354779b5446dc5787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 10/21] fix: a diverged optimization is not reported as valid

---
 src/factorama/sparse_optimizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 3a48385..0029379 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -239,6 +239,7 @@ namespace factorama
                 }
                 // Check if we've diverged beyond the initial state
                 if (current_stats_.residual_norm >= initial_stats_.residual_norm) {
+                    current_stats_.valid = false;
                     current_stats_.status = OptimizerStatus::DIVERGED;
                 } else {
                     current_stats_.status = OptimizerStatus::SUCCESS;
-- 
2.43.0


From 2a40d9d6adbe72d2991cfd7c439b0c92428b784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 11/21] fix: an optimization that ends with a non-finite
 residual is a failure

---
 src/factorama/sparse_optimizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 0029379..9b7039d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <chrono>
+#include <cmath>
 
 namespace factorama
 {
@@ -274,6 +275,12 @@ namespace factorama
             current_stats_.status = OptimizerStatus::SUCCESS;
         }
 
+        // A residual that is not a finite number is never a success
+        if (current_stats_.status == OptimizerStatus::SUCCESS && !std::isfinite(current_stats_.residual_norm)) {
+            current_stats_.valid = false;
+            current_stats_.status = OptimizerStatus::FAILED;
+        }
+
         if (settings_.verbose) {
             std::vector<std::string> timer_names = {"residual", "jacobian", "hessian", "solve", "update_vars"};
 
-- 
2.43.0


From 7df67e7ba4d08137c2aa8d74292f4748443bab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 12/21] fix: damping never exceeds max_lambda when a trial
 fails

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 9b7039d..d2338ca 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -365,6 +365,7 @@ namespace factorama
             if (sparse_solver_.info() != Eigen::Success) {
                 // If factorization fails, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Factorization failed, increasing lambda to " << current_stats_.damping_parameter
@@ -381,6 +382,7 @@ namespace factorama
             if (min_diag < 1e-14 || (max_diag / min_diag) > 1e12) {
                 // Hessian is ill-conditioned, increase damping and try again
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Hessian is " << (min_diag < 1e-14 ? "singular" : "ill-conditioned")
@@ -393,6 +395,7 @@ namespace factorama
             dx = sparse_solver_.solve(b);
             if (sparse_solver_.info() != Eigen::Success) {
                 current_stats_.damping_parameter *= settings_.lambda_up_factor;
+                current_stats_.damping_parameter = std::min(current_stats_.damping_parameter, settings_.max_lambda);
                 lm_attempts++;
                 if (settings_.verbose) {
                     std::cout << "[LM] Solve failed, increasing lambda to " << current_stats_.damping_parameter << "\n";
-- 
2.43.0


From 640454e5ddc25238ec4675c06adf2d241ba58fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 13/21] fix: a rejected step does not write to constant
 variables

---
 src/factorama/sparse_optimizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index d2338ca..6a0c46d 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -455,6 +455,9 @@ namespace factorama
                 update_vars_stopwatch_.start();
                 // Reject step: restore original values and increase damping
                 for (size_t i = 0; i < variables.size(); ++i) {
+                    if (variables[i]->is_constant()) {
+                        continue;
+                    }
                     variables[i]->set_value_from_vector(original_values[i]);
                 }
 
-- 
2.43.0


From 9790d075b6cf81acd18afd599d0926bd2fd03eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 14/21] fix: optimizing again invalidates the covariance of the
 previous run

---
 src/factorama/sparse_optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 6a0c46d..7fcef3b 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -149,6 +149,10 @@ namespace factorama
         // Note: We assume finalize_structure() was called externally
         // graph_->finalize_structure(); // Uncomment if needed
 
+        // A covariance prepared after an earlier run does not describe the result of this one
+        optimization_complete_ = false;
+        cached_hessian_valid_for_covariance_est_ = false;
+
         // Initialize stats
         current_stats_ = OptimizerStats{};
         current_stats_.valid = true;
-- 
2.43.0


From 28ee22cdc5c22b61bb9429062b89f4b3bdbf5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:46 +0000
Subject: [PATCH 15/21] fix: covariances are estimated at the optimized values

---
 src/factorama/sparse_optimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index 7fcef3b..a15fe7b 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -557,8 +557,8 @@ namespace factorama
 
         const auto t_start = std::chrono::steady_clock::now();
 
-        // Step 1: Get the sparse jacobian
-        const Eigen::SparseMatrix<double>& J = graph_->sparse_jacobian();
+        // Step 1: Get the sparse jacobian at the optimized values
+        const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
-- 
2.43.0


From 7b70fbefb5f72215c9923d3b26279e2c286e9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 16/21] fix: optimizing a graph without free variables

---
 src/factorama/sparse_optimizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/factorama/sparse_optimizer.cpp b/src/factorama/sparse_optimizer.cpp
index a15fe7b..12ed65b 100644
--- a/src/factorama/sparse_optimizer.cpp
+++ b/src/factorama/sparse_optimizer.cpp
@@ -188,8 +188,11 @@ namespace factorama
 
         auto start_time = std::chrono::high_resolution_clock::now();
 
+        // Without free variables there is nothing to solve for
+        const size_t max_num_iterations = graph_->num_values() == 0 ? 0 : settings_.max_num_iterations;
+
         // Main optimization loop (following SPARSE METHOD 2 pattern)
-        for (size_t i = 0; i < settings_.max_num_iterations; ++i) {
+        for (size_t i = 0; i < max_num_iterations; ++i) {
             bool verbose_iteration = settings_.verbose && (i < 2 || i == settings_.max_num_iterations - 1);
 
             if (verbose_iteration) {
@@ -560,6 +563,11 @@ namespace factorama
         // Step 1: Get the sparse jacobian at the optimized values
         const Eigen::SparseMatrix<double>& J = graph_->compute_sparse_jacobian_matrix();
 
+        if (J.cols() == 0) {
+            // no free variables, there are no covariances to estimate
+            return;
+        }
+
         // Step 2: compute Hessian
         cached_hessian_ = J.transpose() * J;
 
-- 
2.43.0


From 4f4fca5869d0b2aa108fb6848a825f1dc6a169a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 17/21] fix: sparse Jacobian of a graph that is finalized again
 with fewer entries

---
 src/factorama/factor_graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index ef0f4d0..fbcd0bd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -482,8 +482,10 @@ namespace factorama
                     sparse_jacobian_.coeffRef(row_index, col) = value;
                 }
             }
-            // sparse_jacobian_.makeCompressed();s
-            sparse_jacobian_.finalize();
+            // copy_sparse_data_to_eigen_matrix() relies on the columns being stored without gaps
+            if (num_values_ > 0) {
+                sparse_jacobian_.makeCompressed();
+            }
         } else {
             // subsequent population of sparse_jacobian_
             // use the following template, except calculate the index from row/col
-- 
2.43.0


From 4ba8186dd23b54d5727fe7d0042b1f2ec20ff02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 18/21] fix: sparse Jacobian without entries can be computed
 again

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index fbcd0bd..b48aacd 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -694,7 +694,7 @@ namespace factorama
         int total_nonzeros = sparse_jacobian_.nonZeros();
 
         // Validate preconditions
-        if (!values) {
+        if (!values && total_nonzeros > 0) {
             throw std::runtime_error("FactorGraph: Sparse matrix valuePtr() returned null");
         }
         if (total_nonzeros < 0) {
-- 
2.43.0


From d1b4deb9a93b9258de6021c51c9fdfe80fb1f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:41 +0000
Subject: [PATCH 19/21] fix: keep rotations below 1e-8 rad in the cached
 rotation of a pose

---
 src/factorama/pose_variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factorama/pose_variable.cpp b/src/factorama/pose_variable.cpp
index 403569e..9f73940 100644
--- a/src/factorama/pose_variable.cpp
+++ b/src/factorama/pose_variable.cpp
@@ -69,7 +69,8 @@ namespace factorama
         double angle = rot_CW_tmp.norm();
 
         if (angle < 1e-8) {
-            dcm_CW_ = Eigen::Matrix3d::Identity();
+            // First order: dropping the rotation altogether would lose every small increment
+            dcm_CW_ = Eigen::Matrix3d::Identity() + skew_symmetric(rot_CW_tmp);
             return;
         }
 
-- 
2.43.0


From abaa0d74b85dfce82e1a512dfc8414c9d91db262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 20/21] fix: fail the factor test on Jacobians that are not
 finite

---
 src/factorama/factor_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factorama/factor_graph.cpp b/src/factorama/factor_graph.cpp
index b48aacd..b45757e 100644
--- a/src/factorama/factor_graph.cpp
+++ b/src/factorama/factor_graph.cpp
@@ -641,7 +641,7 @@ namespace factorama
                 // sections of a jacobian may be scaled differently) but it helps.
                 double scaled_jacobian_tol = std::max(1e-2, max_jacobian_val * jacobian_tol);
 
-                if (max_error >= scaled_jacobian_tol) {
+                if (!diff.allFinite() || max_error >= scaled_jacobian_tol) {
                     if (verbose) {
                         if (factor_passed) {
                             std::cout << "\n--- Factor " << factor_idx << " (" << factor->name()
-- 
2.43.0


From 25ecfba903bdd14a7f34a030b1f51d9c80e68d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 21/21] fix: leave empty Jacobians alone in the Huber kernel

---
 src/factorama/kernels.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factorama/kernels.hpp b/src/factorama/kernels.hpp
index ecbecb3..21a9790 100644
--- a/src/factorama/kernels.hpp
+++ b/src/factorama/kernels.hpp
@@ -59,6 +59,9 @@ namespace factorama
             double w_deriv = -0.5 * w / (r_norm * r_norm);
 
             for (auto& jac : jacobians) {
+                if (jac.size() == 0) {
+                    continue; // constant variable
+                }
                 jac = w * jac + w_deriv * residual * (residual.transpose() * jac);
             }
         }
-- 
2.43.0

