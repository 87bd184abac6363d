From 57b93b4842250841503d116c47b58e1f8e3acd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 01/37] fix: build the update's Schur complement factorisation
 explicitly

With Eigen 3.4 an Eigen::LDLT converts both to SerializableLDLT and (through
EigenBase) to MatrixXd, so the call to build_block_symmetric was ambiguous
and no Gaussian process fit could be updated.
---
 include/albatross/src/models/gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..72add8b 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -393,7 +393,7 @@ public:
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
     pred.covariance += targets.covariance;
-    const auto S_ldlt = pred.covariance.ldlt();
+    const Eigen::SerializableLDLT S_ldlt(pred.covariance);
 
     const Eigen::MatrixXd cross =
         covariance_function_(fit_.train_features, features);
-- 
2.43.0


From 1eea810201a95062a6151f906ef6b9170e3d8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 02/37] fix: include measurement noise of the new targets when
 updating a GP

Fitting wraps features as measurements so that measurement only covariance
terms apply to the training data; updating did not, so an updated model
ignored the measurement noise of the observations it was updated with.
---
 include/albatross/src/models/gp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 72add8b..32a1ad7 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -388,7 +388,10 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
+    // Targets are measurements of the features, as they are when fitting.
+    const auto measurement_features = as_measurements(features);
+
+    auto pred = this->_predict_impl(measurement_features, fit_,
                                     PredictTypeIdentity<JointDistribution>());
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
@@ -396,7 +399,7 @@ public:
     const Eigen::SerializableLDLT S_ldlt(pred.covariance);
 
     const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
+        covariance_function_(fit_.train_features, measurement_features);
 
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
-- 
2.43.0


From dc31b396e573d46412548ce49aedd6f5e3f35881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 03/37] fix: do not scale the log determinant by the dimension
 in the differential entropy

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From c2b765259dd4e9877076b86b13c48a65c858fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 04/37] fix: include the variances of the targets in the GP log
 likelihood

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 32a1ad7..146e4bc 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -447,7 +447,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From ee7366d61fffc18b1c4ad52e2e16d9597fb8eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 05/37] fix: return a map of joint predictions from cross
 validation when a map is asked for

---
 include/albatross/src/evaluation/cross_validation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/cross_validation.hpp b/include/albatross/src/evaluation/cross_validation.hpp
index b0e6cbe..aeedbef 100644
--- a/include/albatross/src/evaluation/cross_validation.hpp
+++ b/include/albatross/src/evaluation/cross_validation.hpp
@@ -234,11 +234,11 @@ private:
   auto get(get_type<JointDistribution>) const { return this->joint(); }
 
   auto get(get_type<std::map<GroupKey, JointDistribution>>) const {
-    return this->joints();
+    return this->joints().get_map();
   }
 
   auto get(get_type<Grouped<GroupKey, JointDistribution>>) const {
-    return this->joints().get_map();
+    return this->joints();
   }
 
   const ModelType model_;
-- 
2.43.0


From 76e7a6761ff1f4117e393d358021326a8e15aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 06/37] fix: make block_accumulate and block_product compile in
 C++17

---
 include/albatross/src/linalg/block_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index 77fa09c..60efe37 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -65,10 +65,10 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
     return apply_function(lhs.at(key), rhs.at(key));
   };
 
-  return block_sum(apply(lhs.keys(), one_group));
+  return block_sum(albatross::apply(lhs.keys(), one_group));
 }
 
-template <typename GroupKey, typename ApplyFunction>
+template <typename GroupKey>
 inline Eigen::MatrixXd
 block_product(const Grouped<GroupKey, Eigen::MatrixXd> &lhs,
               const Grouped<GroupKey, Eigen::MatrixXd> &rhs) {
-- 
2.43.0


From 499dce548e795df7b52a01c4e5853abe3416f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 07/37] fix: accept sparse right hand sides in block diagonal
 solves

---
 include/albatross/src/linalg/block_diagonal.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..102dcf2 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -130,7 +130,9 @@ BlockDiagonalLDLT::solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    // The factorisation of each block solves dense right hand sides.
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.solve(rhs_chunk);
     i += b.rows();
   }
@@ -155,7 +157,9 @@ BlockDiagonalLDLT::sqrt_solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    // The factorisation of each block solves dense right hand sides.
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.sqrt_solve(rhs_chunk);
     i += b.rows();
   }
-- 
2.43.0


From 84e1b4422ff68891da3bb07978db81e029062585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 08/37] fix: remove the mean function before fitting a sparse
 GP

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..867469c 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -662,10 +662,10 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    *y = targets.mean;
 
     this->mean_function_.remove_from(
         subset(out_of_order_features, reordered_inds), &targets.mean);
+    *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
-- 
2.43.0


From 0d9f40e4683e5ca57110a9d9bf5c4db141c8632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 09/37] fix: remove the mean function when rebasing a sparse GP
 onto new inducing points

---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 867469c..39157d3 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -422,6 +422,9 @@ public:
     JointDistribution prediction(prediction_);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
+    // The information describes deviations from the mean function which
+    // gets added back in when predicting.
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
 
     // Here P is the posterior covariance at the new inducing points.  If
-- 
2.43.0


From 978b13a14d17ac7945af420db964f2ab411f7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 10/37] fix: store the strategy passed to
 set_inducing_point_strategy

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 39157d3..f49c536 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -611,7 +611,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From 8d253015d0f6c6280b126c7a929ef3157862249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 11/37] fix: compare the best iterations of two RANSAC outputs

---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From 46c7adee9deae2bb508d25c7408acb593c742b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 12/37] fix: let the GP RANSAC functions own their metrics
 instead of dangling references

---
 include/albatross/src/models/ransac_gp.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/models/ransac_gp.hpp b/include/albatross/src/models/ransac_gp.hpp
index fadb2a2..6d2e218 100644
--- a/include/albatross/src/models/ransac_gp.hpp
+++ b/include/albatross/src/models/ransac_gp.hpp
@@ -21,7 +21,7 @@ template <typename GroupKey>
 inline typename RansacFunctions<ConditionalFit, GroupKey>::FitterFunc
 get_gp_ransac_fitter(const ConditionalGaussian &model,
                      const GroupIndexer<GroupKey> &indexer) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer](const std::vector<GroupKey> &groups) {
     auto indices = indices_from_groups(indexer, groups);
     return model.fit_from_indices(indices);
   };
@@ -32,7 +32,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::IsValidCandidate
 get_gp_ransac_is_valid_candidate(const ConditionalGaussian &model,
                                  const GroupIndexer<GroupKey> &indexer,
                                  const IsValidCandidateMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
@@ -45,7 +45,8 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::InlierMetric
 get_gp_ransac_inlier_metric(const ConditionalGaussian &model,
                             const GroupIndexer<GroupKey> &indexer,
                             const InlierMetricType &metric) {
-  return [&, indexer, model](const GroupKey &group, const ConditionalFit &fit) {
+  return [indexer, model, metric](const GroupKey &group,
+                                  const ConditionalFit &fit) {
     const auto indices = indexer.at(group);
     const auto pred = get_prediction_reference(model, fit, indices);
     const auto truth = model.get_truth(indices);
@@ -58,7 +59,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::ConsensusMetric
 get_gp_ransac_consensus_metric(const ConditionalGaussian &model,
                                const GroupIndexer<GroupKey> &indexer,
                                const ConsensusMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
-- 
2.43.0


From ae33148eedb21ace020548597f12f2d3892ca952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 13/37] fix: step backwards in the gradient of a parameter at
 its upper bound

---
 include/albatross/src/tune/finite_difference.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..c1db8e8 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,12 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    // set_tunable_params_values clamps to the bounds, so a step over the upper
+    // bound has to be noticed before it is taken.
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From 2c85a1068fb0f76d9991fc16692caa455cd8ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 14/37] fix: return a ratio, not its logarithm, for a single
 greedy query

---
 include/albatross/src/tune/greedy_tuner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/greedy_tuner.hpp b/include/albatross/src/tune/greedy_tuner.hpp
index d35f752..0ee9cfd 100644
--- a/include/albatross/src/tune/greedy_tuner.hpp
+++ b/include/albatross/src/tune/greedy_tuner.hpp
@@ -38,7 +38,7 @@ inline std::vector<double> query_ratios(std::size_t n) {
   const double log_min = -5.;
   const double log_max = -0.1;
   if (n == 1) {
-    return {log_min};
+    return {std::pow(10, log_min)};
   }
 
   const double step = (log_max - log_min) / (cast::to_double(n) - 1);
-- 
2.43.0


From 08b2d0f6d31e66f387ef880ac7e06015a97052a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 15/37] fix: add rather than multiply the terms of the Gaussian
 prior's log density

---
 include/albatross/src/core/priors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..8d83561 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
-- 
2.43.0


From d62364ba044f7803b295300ea75996505a6bf181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 16/37] fix: normalise the positive Gaussian prior over the
 positive values

---
 include/albatross/src/core/priors.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 8d83561..74b46a6 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -161,8 +161,14 @@ public:
   }
 
   double log_pdf(double x) const override {
-    double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    if (x < 0.) {
+      return -LARGE_VAL;
+    }
+    const double deviation = (x - mu_) / sigma_;
+    // the probability that a gaussian variable is positive
+    const double p_positive = 0.5 * std::erfc(-mu_ / (sigma_ * std::sqrt(2.)));
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
+           log(p_positive);
   }
 
   double mu_;
-- 
2.43.0


From bb27655b63031c74469251e3e6e49a0e4deb1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 17/37] fix: halve the squared deviation in the log normal
 prior and restrict it to its support

---
 include/albatross/src/core/priors.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 74b46a6..c2327eb 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -190,8 +190,11 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (x <= 0.) {
+      return -LARGE_VAL;
+    }
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - 0.5 * deviation * deviation;
   }
 
   double mu_;
-- 
2.43.0


From 09f47beb9341f9a84138f4acb52dc87f70bff87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 18/37] fix: compare the bounds of uniform priors rather than
 their rounded names

---
 include/albatross/src/core/priors.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index c2327eb..6f61ca5 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,11 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  bool operator==(const UniformPrior &other) const {
+    return other.is_log_scale() == is_log_scale() && other.lower_ == lower_ &&
+           other.upper_ == upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
@@ -254,6 +259,10 @@ public:
     return priors_ == other.priors_;
   }
 
+  bool operator!=(const PriorContainer &other) const {
+    return !(*this == other);
+  }
+
   template <typename PriorType> void operator=(const PriorType &prior) {
     priors_ = prior;
   }
-- 
2.43.0


From 92304e0a9d8b6bb985eff9a6fd398e735ce58934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 19/37] fix: bound the log normal prior to its support

---
 include/albatross/src/core/priors.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 6f61ca5..a555ded 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -188,6 +188,10 @@ public:
     return other.mu_ == mu_ && other.sigma_ == sigma_;
   }
 
+  double lower_bound() const override {
+    return std::numeric_limits<double>::epsilon();
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "log_normal[" << mu_ << "," << sigma_ << "]";
-- 
2.43.0


From c624481ef0c7883ad3fc764dee39061ce0ff8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 20/37] fix: make the free set_subset compile for distributions

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..7fa7e4d 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -243,7 +243,7 @@ template <typename SizeType, typename DistributionType>
 inline void set_subset(const DistributionBase<DistributionType> &from,
                        const std::vector<SizeType> &indices,
                        DistributionBase<DistributionType> *to) {
-  to->derived().set_subset(from, indices);
+  to->derived().set_subset(from.derived(), indices);
 }
 
 template <typename Derived>
-- 
2.43.0


From 2975e6106b54b81f60796c3fb4cdaf6e269099a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 21/37] fix: undo the pivoting of the factorisation in energy
 score draws

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..5af6486 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From 52d9caea54ae258044440a5b4488b6e6ad66fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 22/37] fix: same weighting in both terms of the energy score

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5af6486..b24d3d9 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -248,7 +248,8 @@ inline double pairwise_errors_paired(const Eigen::MatrixXd &samples_a,
                    "Sample matrices must be the same size!");
   ALBATROSS_ASSERT(samples_a.cols() == samples_b.cols() &&
                    "Sample matrices must be the same size!");
-  return ((samples_a - samples_b).array().colwise() * weights.array())
+  return ((samples_a - samples_b).array().colwise() *
+          weights.array().sqrt())
       .matrix()
       .colwise()
       .norm()
-- 
2.43.0


From b313202acf11f89f07e70cbeb978a4a24dfa9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 23/37] fix: orientation of covariance and weights in the
 variogram score

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b24d3d9..386e8df 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -491,7 +491,7 @@ inline double variogram_score(
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.row(row).tail(rest).transpose().array())
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -500,8 +500,8 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
+    sum += (weight_matrix.row(row).tail(rest).transpose().array() *
+            diff.array() * diff.array())
                .sum();
   }
 
-- 
2.43.0


From fc80bcc2642c687fca646b1b110d66215d9e6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 24/37] fix: store whole entries of sparse matrices at their
 own position

---
 include/albatross/src/cereal/eigen.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..81c6b22 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,7 +169,7 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   std::vector<Eigen::Triplet<_Scalar>> elems;
   elems.reserve(nnz);
@@ -177,7 +177,7 @@ inline void save(Archive &ar,
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
                                       _StorageIndex>::InnerIterator it(m, col);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +207,7 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
-- 
2.43.0


From e28bdaf491bc845169f37ace5914da250a8cc96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 25/37] fix: version of serialised sparse GP fits so that their
 rank is stored

---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index f49c536..08720f6 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -93,6 +93,9 @@ template <typename FeatureType> struct SparseGPFit {};
 template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   using PermutationIndices = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
 
+  // The numerical rank is part of the archive from this version on.
+  static const std::uint32_t serialization_version = 2;
+
   std::vector<FeatureType> train_features;
   Eigen::SerializableLDLT train_covariance;
   Eigen::MatrixXd R;
-- 
2.43.0


From e43ee40e0b79081bd3541a0310af133f7e45be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 26/37] fix: serialise factorisations which are not initialised

---
 include/albatross/src/cereal/serializable_ldlt.hpp | 2 +-
 include/albatross/src/eigen/serializable_ldlt.hpp  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..d0cb3f2 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -19,7 +19,7 @@ template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
                  const std::uint32_t) {
   save_lower_triangle(archive, ldlt.matrix());
-  archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
+  archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
 }
 
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..1517ec6 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -39,6 +39,11 @@ public:
     return this->m_transpositions;
   }
 
+  const LDLT<MatrixXd, Lower>::TranspositionType &transpositions() const {
+    // Unlike `transpositionsP()` this can be used before initialization.
+    return this->m_transpositions;
+  }
+
   LDLT<MatrixXd, Lower>::MatrixType &mutable_matrix() { return this->m_matrix; }
 
   LDLT<MatrixXd, Lower>::MatrixType matrix() const { return this->m_matrix; }
-- 
2.43.0


From f2d93b4a82acd934ad55db0d5088f6ed2f27f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:50 +0000
Subject: [PATCH 27/37] fix: store the norm and status of factorisations

---
 .../src/cereal/serializable_ldlt.hpp          | 21 +++++++++++++++++--
 .../albatross/src/eigen/serializable_ldlt.hpp |  7 +++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index d0cb3f2..3d19cfa 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -17,18 +17,35 @@ namespace cereal {
 
 template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   save_lower_triangle(archive, ldlt.matrix());
   archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  if (version > 0 && ldlt.is_initialized()) {
+    archive(cereal::make_nvp("l1_norm", ldlt.l1_norm()),
+            cereal::make_nvp("info", static_cast<int>(ldlt.info())));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (!ldlt.is_initialized()) {
+    return;
+  }
+  if (version > 0) {
+    int info;
+    archive(cereal::make_nvp("l1_norm", ldlt.mutable_l1_norm()),
+            cereal::make_nvp("info", info));
+    ldlt.mutable_info() = static_cast<Eigen::ComputationInfo>(info);
+  } else {
+    ldlt.mutable_info() = Eigen::Success;
+    ldlt.mutable_l1_norm() =
+        ldlt.reconstructedMatrix().cwiseAbs().colwise().sum().maxCoeff();
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 1517ec6..aadaf41 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -22,6 +22,9 @@ public:
   using Scalar = double;
   using MatrixType = MatrixXd;
 
+  // The norm and status are part of the archive from this version on.
+  static const std::uint32_t serialization_version = 1;
+
   SerializableLDLT() : LDLT<MatrixXd, Lower>() {}
 
   SerializableLDLT(const MatrixXd &x) : LDLT<MatrixXd, Lower>(x.ldlt()) {}
@@ -57,6 +60,10 @@ public:
     return this->m_l1_norm;
   }
 
+  double &mutable_l1_norm() { return this->m_l1_norm; }
+
+  ComputationInfo &mutable_info() { return this->m_info; }
+
   /*
    * Computes the inverse of the square root of the diagonal, D^{-1/2}
    */
-- 
2.43.0


From 5c9f0207e5e4f5466b15ad9e7cb0d1845613db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 28/37] fix: spanning trees do not use a loop at their first
 vertex

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..bb44ef5 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,7 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  output.vertices.insert(first_edge.a);
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From 9da1efe53b211e92fa7b311baff5a645a7649493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 29/37] fix: print graphs to the given stream

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index bb44ef5..152c9a7 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -278,7 +278,7 @@ template <typename VertexType>
 inline std::ostream &operator<<(std::ostream &os,
                                 const Graph<VertexType> &graph) {
   for (const auto &edge : graph.edges) {
-    std::cout << edge << std::endl;
+    os << edge << std::endl;
   }
   return os;
 }
-- 
2.43.0


From 11fa77d7a18d97103d4ddcecb91d22b405448a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 30/37] fix: incomplete gamma function at infinity for small
 shapes

---
 include/albatross/src/stats/incomplete_gamma.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/albatross/src/stats/incomplete_gamma.hpp b/include/albatross/src/stats/incomplete_gamma.hpp
index 861a3a3..12600de 100644
--- a/include/albatross/src/stats/incomplete_gamma.hpp
+++ b/include/albatross/src/stats/incomplete_gamma.hpp
@@ -148,6 +148,10 @@ inline double incomplete_gamma(double a, double z) {
     return 1.;
   }
 
+  if (std::isinf(z)) {
+    return 1.;
+  }
+
   if (a < 10) {
     return details::incomplete_gamma_continuous_fraction(a, z);
   } else {
-- 
2.43.0


From 4b64a030a1163b75facc83c452735fa2ef72fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 31/37] fix: print a JointDistribution to the given stream
 instead of std::cout

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fa7e4d..5a95804 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From a6e3d7a9a4d334719f24a31283ff07e3529829e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 32/37] fix: write CSV rows and headers to streams which cannot
 seek, and rows without columns

---
 include/albatross/src/utils/csv_utils.hpp | 24 ++++++++++-------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..e45e149 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -162,16 +162,6 @@ to_map(const RegressionDataset<FeatureType> &dataset,
   return row;
 }
 
-/*
- * This helper function makes it easier to use range based
- * for loops that append a delimeter which can be followed
- * by this function to turn the last delimeter into a new line
- */
-inline void replace_last_character_with_newline(std::ostream &stream) {
-  stream.seekp(-1, std::ios_base::end);
-  stream << std::endl;
-}
-
 template <typename FeatureType, typename DistributionType>
 inline std::vector<std::string>
 get_column_names(const RegressionDataset<FeatureType> &dataset,
@@ -187,21 +177,27 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
+  // The separator goes in front of each following column (instead of behind
+  // each of them) so the stream doesn't need to support seeking.
+  std::string separator;
   for (const auto &col : columns) {
+    stream << separator;
     if (map_contains(row, col)) {
       stream << row.at(col);
     }
-    stream << ",";
+    separator = ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
+  std::string separator;
   for (const auto &col : columns) {
-    stream << col << ",";
+    stream << separator << col;
+    separator = ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From 7e352c7e037420f09424aec7b5b160eea2a0051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 33/37] fix: write the columns of every dataset, not only the
 first one's, to a CSV of several datasets

---
 include/albatross/src/utils/csv_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index e45e149..63052f1 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -242,9 +242,14 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto next_keys = get_column_names(datasets[i], predictions[i]);
+    keys.insert(next_keys.begin(), next_keys.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From 82828aee5de6843014e0f9f20978b30d8a4d4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:27 +0000
Subject: [PATCH 34/37] fix: keep the order of more than ten values given to
 the generic tuner

---
 include/albatross/src/tune/tune.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 1135cae..ba15b67 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -82,8 +82,13 @@ inline nlopt::opt default_gradient_optimizer(
 
 inline ParameterStore uninformative_params(const std::vector<double> &values) {
   ParameterStore params;
+  // Parameters are ordered by name, so the indices need to be padded in order
+  // for the names (and the parameters) to stay in the order of the values.
+  const std::size_t width = std::to_string(values.size()).size();
   for (std::size_t i = 0; i < values.size(); ++i) {
-    params[std::to_string(i)] = {values[i], UninformativePrior()};
+    const std::string index = std::to_string(i);
+    const std::string name = std::string(width - index.size(), '0') + index;
+    params[name] = {values[i], UninformativePrior()};
   }
   return params;
 }
-- 
2.43.0


From 2553c5fdc53c2375704ec905fd5d8ff8133ab902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:27 +0000
Subject: [PATCH 35/37] fix: compare a factorisation with one which is not
 initialised

---
 include/albatross/src/eigen/serializable_ldlt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index aadaf41..5f8cd29 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -213,8 +213,8 @@ public:
   bool operator==(const SerializableLDLT &rhs) const {
     // Make sure the two lower triangles are the same and that
     // any permutations are identical.
-    if (!this->m_isInitialized && !rhs.m_isInitialized) {
-      return true;
+    if (!this->m_isInitialized || !rhs.m_isInitialized) {
+      return this->m_isInitialized == rhs.m_isInitialized;
     }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
-- 
2.43.0


From 9d3ebe5645121226c16d05e66dc637d1ecbe8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 36/37] fix: objects of different sizes compare as different

---
 include/albatross/src/core/distribution.hpp        | 14 +++++++++++---
 .../src/covariance_functions/representations.hpp   |  6 ++++--
 include/albatross/src/eigen/serializable_ldlt.hpp  |  3 +++
 include/albatross/src/linalg/block_symmetric.hpp   |  2 +-
 include/albatross/src/models/least_squares.hpp     |  4 +++-
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 5a95804..416eaf9 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -15,7 +15,7 @@
 
 inline bool operator==(const albatross::DiagonalMatrixXd &x,
                        const albatross::DiagonalMatrixXd &y) {
-  return (x.diagonal() == y.diagonal());
+  return (x.rows() == y.rows() && x.diagonal() == y.diagonal());
 }
 
 namespace albatross {
@@ -110,6 +110,9 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   bool approximately_equal(
       const MarginalDistribution &other,
       double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.diagonal().isApprox(other.covariance.diagonal(), epsilon);
@@ -117,7 +120,8 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   }
 
   bool operator==(const MarginalDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return (size() == other.size()) && (mean == other.mean) &&
+           (covariance == other.covariance);
   }
 
   MarginalDistribution operator+(const MarginalDistribution &other) const {
@@ -184,6 +188,9 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   bool approximately_equal(
       const JointDistribution &other,
       const double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.isApprox(other.covariance, epsilon);
@@ -191,7 +198,8 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   }
 
   bool operator==(const JointDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return (size() == other.size()) && (mean == other.mean) &&
+           (covariance == other.covariance);
   }
 
   JointDistribution operator*(double scale) const {
diff --git a/include/albatross/src/covariance_functions/representations.hpp b/include/albatross/src/covariance_functions/representations.hpp
index f883aa8..5bec9f5 100644
--- a/include/albatross/src/covariance_functions/representations.hpp
+++ b/include/albatross/src/covariance_functions/representations.hpp
@@ -84,7 +84,8 @@ struct ExplainedCovariance {
   }
 
   bool operator==(const ExplainedCovariance &rhs) const {
-    return (outer_ldlt == rhs.outer_ldlt && inner == rhs.inner);
+    return (outer_ldlt == rhs.outer_ldlt && rows() == rhs.rows() &&
+            cols() == rhs.cols() && inner == rhs.inner);
   }
 
   Eigen::Index rows() const { return inner.rows(); }
@@ -108,7 +109,8 @@ struct DirectInverse {
   }
 
   bool operator==(const DirectInverse &rhs) const {
-    return (inverse_ == rhs.inverse_);
+    return (rows() == rhs.rows() && cols() == rhs.cols() &&
+            inverse_ == rhs.inverse_);
   }
 
   Eigen::Index rows() const { return inverse_.rows(); }
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5f8cd29..20f7041 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -216,6 +216,9 @@ public:
     if (!this->m_isInitialized || !rhs.m_isInitialized) {
       return this->m_isInitialized == rhs.m_isInitialized;
     }
+    if (this->rows() != rhs.rows()) {
+      return false;
+    }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
     auto rhs_lower =
diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..bbc2a7c 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -105,7 +105,7 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockSymmetric<Solver>::solve(
 template <typename Solver>
 inline bool
 BlockSymmetric<Solver>::operator==(const BlockSymmetric &rhs) const {
-  return (A == rhs.A && Ai_B == rhs.Ai_B && S == rhs.S);
+  return (A == rhs.A && S == rhs.S && Ai_B == rhs.Ai_B);
 }
 
 template <typename Solver>
diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index bb62fa4..01237a1 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -20,7 +20,9 @@ template <typename ImplType> class LeastSquares;
 template <typename ImplType> struct Fit<LeastSquares<ImplType>> {
   Eigen::VectorXd coefs;
 
-  bool operator==(const Fit &other) const { return (coefs == other.coefs); }
+  bool operator==(const Fit &other) const {
+    return (coefs.size() == other.coefs.size() && coefs == other.coefs);
+  }
 };
 
 inline bool all_same_value(const Eigen::VectorXd &x) {
-- 
2.43.0


From aee70f43f0e1df04eab9ab66fed36a51fbe029dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 37/37] fix: a null model keeps the parameters it is given

---
 include/albatross/src/models/null_model.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/albatross/src/models/null_model.hpp b/include/albatross/src/models/null_model.hpp
index f8086e4..4153b15 100644
--- a/include/albatross/src/models/null_model.hpp
+++ b/include/albatross/src/models/null_model.hpp
@@ -29,7 +29,7 @@ template <> struct Fit<NullModel> {
 class NullModel : public ModelBase<NullModel> {
 public:
   NullModel() {}
-  NullModel(const ParameterStore &param_store) : params_(param_store) {}
+  NullModel(const ParameterStore &param_store) { params_ = param_store; }
 
   std::string get_name() const { return "null_model"; };
 
@@ -72,9 +72,6 @@ public:
     const Eigen::VectorXd diag = 1.e4 * Eigen::VectorXd::Ones(en);
     return MarginalDistribution(mean, diag.asDiagonal());
   }
-
-private:
-  ParameterStore params_;
 };
 
 } // namespace albatross
-- 
2.43.0

