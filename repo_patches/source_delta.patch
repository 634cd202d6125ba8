From 8badf76c1c17b3b141806c9a23f303344b9789f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 01/50] fix: WeightedMajority::from_slices keeps negatively
 weighted hypotheses

---
 src/hypothesis/weighted_majority.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..9edcf03 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -29,7 +29,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w != 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From 9df8e24cc9c807c97030b6c56e70a0330e366bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 02/50] fix: AdaBoost and AdaBoostV survive examples whose
 weights underflow to zero

---
 src/booster/adaboost/adaboost_algorithm.rs   | 6 ++++++
 src/booster/adaboostv/adaboostv_algorithm.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 3f1e332..7057238 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -228,6 +228,12 @@ impl<'a, F> AdaBoost<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // `b` is zero in log-space; `b - a` may not be a number.
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index ada5e76..0e94d36 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -264,6 +264,12 @@ impl<'a, F> AdaBoostV<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // `b` is zero in log-space; `b - a` may not be a number.
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
-- 
2.43.0


From eda8d8ada3fc835e6ace02a2fc86f09e584e890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 03/50] fix: MadaBoost accumulates ln(beta) and caps the
 weights at their initial value

---
 src/booster/madaboost/madaboost_algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..62f89e7 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,8 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        // `ln 1 = 0.`
+        self.betas = vec![0f64; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From d1c9d4abc0a172129d7093a8e4de0da40add8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/50] fix: SmoothBoost votes over all its hypotheses and
 starts from N = 0

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From 76c62402d06818b8b02c8c46921fe36459c436c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 05/50] fix: LPBoost caps the distribution at 1/nu

---
 src/booster/lpboost/lp_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..c72ac68 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -76,13 +76,13 @@ impl LPModel {
     /// Initialize the LP model.
     /// arguments.
     /// - `size`: Number of variables (Number of examples).
-    /// - `upper_bound`: Capping parameter. `[1, size]`.
+    /// - `upper_bound`: Upper bound on the weight of an example, `1/ν`.
     pub(super) fn init(size: usize, upper_bound: f64) -> Self {
         let n_examples = size;
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From 1e4bc9a85d90945a84d767eeeb98625184a48158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 06/50] fix: SoftBoost caps the distribution at 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From acc1cc4f04117e07090b34cb6876f9f5496790b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 07/50] fix: MLPBoost's secondary LP caps the distribution at
 1/nu

---
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..a166d87 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -179,7 +179,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From ac2eb9b3471b4f5cc7f43f50b4c7411ca12e5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 08/50] fix: SoftBoost bounds the edges by the smallest edge
 minus the tolerance and stops when that is infeasible

---
 src/booster/softboost/qp_model.rs            | 6 ++++++
 src/booster/softboost/softboost_algorithm.rs | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 706f4ec..83dbfa2 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -140,6 +140,12 @@ impl QPModel {
             );
 
             solver.solve();
+            // breaks if there is no feasible distribution.
+            if solver.solution.status != SolverStatus::Solved
+                && solver.solution.status != SolverStatus::AlmostSolved
+            {
+                return None;
+            }
             let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..2aa245a 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -252,7 +252,10 @@ impl<F> SoftBoost<'_, F>
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(
+                self.sample, &mut self.dist[..],
+                self.gamma_hat - self.tolerance, h,
+            )
     }
 }
 
-- 
2.43.0


From db3551d9b221ef62ce6735b550e6e571a4221161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 09/50] fix: SoftBoost, CERLPBoost and MLPBoost run when nu
 equals the number of examples

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 6 ++++--
 src/booster/mlpboost/mlpboost_algorithm.rs     | 7 +++++--
 src/booster/softboost/softboost_algorithm.rs   | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..6d2e679 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -212,7 +212,8 @@ impl<'a, F> CERLPBoost<'a, F> {
     fn regularization_param(&mut self) {
         let m = self.dist.len() as f64;
         let ln_part = (m / self.nu).ln();
-        self.eta = ln_part / self.half_tolerance;
+        // `ln_part` is zero if `self.nu` is the number of examples.
+        self.eta = 0.5_f64.max(ln_part / self.half_tolerance);
 
         self.frank_wolfe.eta(self.eta);
     }
@@ -227,7 +228,8 @@ impl<'a, F> CERLPBoost<'a, F> {
         let m = self.dist.len() as f64;
 
         let ln_m = (m / self.nu).ln();
-        let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
+        let max_iter = (4.0 / self.half_tolerance)
+            .max(8.0 * ln_m / self.half_tolerance.powi(2));
 
         max_iter.ceil() as usize
     }
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..a7c524b 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -259,7 +259,8 @@ impl<'a, F> MLPBoost<'a, F> {
     #[inline(always)]
     fn eta(&mut self) {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        self.eta = ln_m / self.half_tolerance;
+        // `ln_m` is zero if `self.nu` is the number of examples.
+        self.eta = 0.5_f64.max(ln_m / self.half_tolerance);
         self.primary.eta(self.eta);
     }
 
@@ -297,7 +298,9 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        (4.0 / self.half_tolerance)
+            .max(8.0_f64 * ln_m / self.half_tolerance.powi(2))
+            .ceil() as usize
     }
 
 
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index 2aa245a..d3e9b6a 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,8 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // `temp` is zero if `self.nu` is the number of examples.
+        max_iter.ceil().max(1.0) as usize
     }
 }
 
-- 
2.43.0


From 77ede41fa864cc4e7cc56e5122e026a9890d9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 10/50] fix: CERLPBoost takes its first hypothesis as the
 initial combination

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 6d2e679..15ad8f7 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -326,6 +326,14 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
         // Receive a hypothesis from the base learner
         let h = weak_learner.produce(self.sample, &self.dist);
 
+        // For the first iteration,
+        // just append the hypothesis and continue.
+        if self.hypotheses.is_empty() {
+            self.hypotheses.push(h);
+            self.weights.push(1.0_f64);
+            return ControlFlow::Continue(());
+        }
+
         let new_edge = utils::edge_of_hypothesis(
             self.sample, &self.dist[..], &h
         );
-- 
2.43.0


From 7d9c663426500146b95e1d6fa0e1f789bd4c6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 11/50] fix: ERLPBoost does not stop before it has a hypothesis

---
 src/booster/erlpboost/erlpboost_algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booster/erlpboost/erlpboost_algorithm.rs b/src/booster/erlpboost/erlpboost_algorithm.rs
index c810573..9340f9e 100644
--- a/src/booster/erlpboost/erlpboost_algorithm.rs
+++ b/src/booster/erlpboost/erlpboost_algorithm.rs
@@ -371,9 +371,10 @@ impl<F> Booster<F> for ERLPBoost<'_, F>
         self.terminated = self.max_iter;
 
         self.hypotheses = Vec::new();
+        self.weights = Vec::new();
 
         self.gamma_hat = 1.0;
-        self.gamma_star = -1.0;
+        self.gamma_star = f64::MIN;
 
 
         assert!((0.0..1.0).contains(&self.half_tolerance));
-- 
2.43.0


From a82d3b38c9dd3a4a3ee2700be6ba2c0cb3e26bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 12/50] fix: line search maximises the soft-margin objective

---
 src/common/frank_wolfe.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..fd74b82 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -215,16 +215,20 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
-        // `dot` is `d * A (e_h - w)`
+        // `dot` is `d * A (e_h - w)`, the slope of the (concave) objective
+        // at the step size `1`.
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -250,9 +254,9 @@ impl FrankWolfe {
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
             if dot < 0.0 {
-                lb = step_size;
-            } else if dot > 0.0 {
                 ub = step_size;
+            } else if dot > 0.0 {
+                lb = step_size;
             } else {
                 break;
             }
-- 
2.43.0


From 565807a7bc9fb535f174e8dc41fc8bac5f157c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 13/50] fix: blended pairwise steps compare the newest
 hypothesis with the active ones and move weight uphill

---
 src/common/frank_wolfe.rs | 45 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index fd74b82..ebb010d 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -280,13 +280,12 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
-        // Find a hypothesis that has a smallest edge.
-        let mut worst_edge = 2.0;
-        let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
-        let mut position_of_worst_one = hypotheses.len();
-        let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
+        // Find the hypotheses of smallest/largest edge
+        // among those of positive weight.
+        let mut worst_edge = f64::MAX;
+        let mut local_best_edge = f64::MIN;
+        let mut position_of_worst_one = position_of_new_one;
+        let mut position_of_local_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -299,30 +298,20 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
-
                 if edge < worst_edge {
                     worst_edge = edge;
                     position_of_worst_one = j;
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
 
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
@@ -361,17 +350,17 @@ impl FrankWolfe {
                 .collect::<Vec<_>>();
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins.into_iter(),
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Add `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
                 weights[position_of_worst_one] = 0.0;
+                weights[position_of_local_best_one] += max_stepsize;
                 return weights;
             }
 
@@ -392,9 +381,9 @@ impl FrankWolfe {
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
                 if dot < 0.0 {
-                    lb = step_size;
-                } else if dot > 0.0 {
                     ub = step_size;
+                } else if dot > 0.0 {
+                    lb = step_size;
                 } else {
                     break;
                 }
-- 
2.43.0


From ea464fd00818fb8ec2881fd0beea8ec8749ebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 14/50] fix: the capped-simplex check tolerates rounding

---
 src/common/checker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/checker.rs b/src/common/checker.rs
index 9e88e6a..75cf59a 100644
--- a/src/common/checker.rs
+++ b/src/common/checker.rs
@@ -57,9 +57,11 @@ pub(crate) fn check_capped_simplex_condition(
     }
     assert!((sum - 1f64).abs() < SIMPLEX_TOLERANCE, "sum(dist[..]) = {sum}");
 
-    let ub = 1f64 / nu;
+    // Each entry may exceed its bounds by rounding.
+    let lb = -SIMPLEX_TOLERANCE;
+    let ub = 1f64 / nu + SIMPLEX_TOLERANCE;
     assert!(
-        slice.iter().all(|s| (0f64..=ub).contains(s)),
+        slice.iter().all(|s| (lb..=ub).contains(s)),
         "capping constraint is violated!"
     );
 }
-- 
2.43.0


From 2af99bdad86945aec2df4c75ea4dca7f2a8b0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 15/50] fix: SoftBoost and TotalBoost go on when an example's
 weight vanishes

---
 src/booster/softboost/qp_model.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 83dbfa2..ea614f3 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,6 +13,10 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
+/// Relative to the uniform weight, the least weight the quadratic
+/// approximation is taken at; keeps the program well-conditioned when
+/// some weights vanish.
+const FLOOR: f64 = 1e-4;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -148,11 +152,9 @@ impl QPModel {
             }
             let solution = &solver.solution.x[..];
 
-            // breaks if there is a zero-valued coordinate in the solution.
-            if !self.all_positive(solution) { return None; }
             dist.iter_mut()
                 .zip(solution)
-                .for_each(|(di, s)| { *di = *s; });
+                .for_each(|(di, s)| { *di = s.max(0f64); });
 
             let objval = solver.solution.obj_val;
             if old_objval - objval < QP_TOLERANCE {
@@ -164,19 +166,12 @@ impl QPModel {
     }
 
 
-    /// Returns `true` if `dist[i] > 0` holds for all `i = 1, 2, ..., m.` 
-    pub(self) fn all_positive(&self, dist: &[f64]) -> bool {
-        dist.iter()
-            .copied()
-            .all(|d| d > 0f64)
-    }
-
-
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
+        let floor = FLOOR / self.n_examples as f64;
         let mut linear = Vec::with_capacity(self.n_examples);
         let iter = dist.iter()
             .copied()
-            .map(|di| di.ln());
+            .map(|di| di.max(floor).ln());
         linear.extend(iter);
         linear
     }
@@ -194,6 +189,7 @@ impl QPModel {
     pub(self) fn build_quadratic_part_objective(&self, dist: &[f64])
         -> CscMatrix::<f64>
     {
+        let floor = FLOOR / self.n_examples as f64;
         let n_rows = self.n_examples;
         let n_cols = n_rows;
 
@@ -204,7 +200,7 @@ impl QPModel {
         for (i, &di) in (0..).zip(dist) {
             col_ptr.push(i);
             row_val.push(i);
-            nonzero.push(1f64 / di);
+            nonzero.push(1f64 / di.max(floor));
         }
         col_ptr.push(row_val.len());
 
-- 
2.43.0


From 6a45ad116dcb18dedacc290a83e0d6554a0b1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 16/50] fix: SoftBoost's sequential program runs until its
 value settles

---
 src/booster/softboost/qp_model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index ea614f3..1af9c20 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,6 +13,8 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
+/// The number of quadratic approximations solved at most.
+const MAX_QP: usize = 100;
 /// Relative to the uniform weight, the least weight the quadratic
 /// approximation is taken at; keeps the program well-conditioned when
 /// some weights vanish.
@@ -126,7 +128,7 @@ impl QPModel {
 
 
         let mut old_objval = 1e9;
-        loop {
+        for _ in 0..MAX_QP {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
                 .verbose(false)
@@ -157,7 +159,7 @@ impl QPModel {
                 .for_each(|(di, s)| { *di = s.max(0f64); });
 
             let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE {
+            if (old_objval - objval).abs() < QP_TOLERANCE {
                 break;
             }
             old_objval = objval;
-- 
2.43.0


From 08c8e1765b947afb24946e5f6a6b96173b224fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 17/50] fix: GBM fits each coefficient to the residuals by the
 loss's own minimiser

---
 src/booster/gradient_boost/gbm.rs |  7 ++++++-
 src/common/loss_functions.rs      | 21 ++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..0489b4f 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,35 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                if items.is_empty() {
+                    return 0.0;
+                }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
-
-                assert_ne!(p_sum, 0.0);
+                let rp_sum = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
 
-                y_sum / p_sum
+                if pp_sum == 0.0 { 0.0 } else { rp_sum / pp_sum }
             },
         }
     }
-- 
2.43.0


From 358aa8e8491a311df5b5a733cfb2218093f19a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 18/50] fix: GBM returns the additive model it accumulated

---
 src/booster/gradient_boost/gbm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..94c02b0 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,11 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The coefficients are not votes: do not normalize them.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From d596097fe1d65897f02be7a58fd625b590ba4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 19/50] fix: the gradient of the L1 loss points uphill

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 0489b4f..64bd663 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From f5512ff8842bef6975d9d34084a0bc2375da8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 20/50] fix: a split numbers the rows of each part from zero

---
 src/sample/sample_struct.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..434e6e7 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -576,14 +576,14 @@ impl Sample {
             train.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
+        for (i, &ii) in ix.iter().take(end).skip(start).enumerate() {
             let (x, y) = self.at(ii);
             test.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
+        for (i, &ii) in ix.iter().take(self.n_sample).skip(end).enumerate() {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(start + i, x, y);
         }
 
         (train, test)
-- 
2.43.0


From 61356fb5e6f8011d95c37dec48ed7bb16f090e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 21/50] fix: cross-validation folds past the last row have an
 empty test part

---
 src/research/cross_validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..501b99a 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -146,7 +146,7 @@ impl<'a> CrossValidation<'a> {
     fn fold_at(&self, i: usize) -> (Sample, Sample) {
         let sample_size = self.sample.shape().0;
         let test_size = sample_size - self.train_size;
-        let (start, end) = (i*test_size, ((i+1)*test_size).min(sample_size));
+        let (start, end) = ((i*test_size).min(sample_size), ((i+1)*test_size).min(sample_size));
         self.sample.split(&self.ix, start, end)
     }
 }
-- 
2.43.0


From 3af3f99bf540b67b9980f38e11c8a97ed6dff8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 22/50] fix: sparse features count the value zero once

---
 src/sample/feature_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..d4787d6 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -425,8 +425,9 @@ impl SparseFeature {
             .iter()
             .map(|(_, v)| *v)
             .collect::<Vec<_>>();
+        let explicit_zero = values.contains(&0.0);
         let mut uniq_value_count = inner_distinct_value_count(values);
-        if self.has_zero() {
+        if self.has_zero() && !explicit_zero {
             uniq_value_count += 1;
         }
         uniq_value_count
-- 
2.43.0


From e5241e735499b53a7bcf4211f54cd505dda68aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 23/50] fix: per-label statistics of sparse features use the
 examples with that label

---
 src/sample/feature_struct.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index d4787d6..3e9486d 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -451,9 +451,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|(i, f)|
+                if target[*i] != y { 0.0 } else { weight[*i] * f }
             )
             .sum::<f64>()
             / total_weight
@@ -498,14 +497,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From 3133594854be30f3f6da20a7aa139cc4e292afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 24/50] fix: trees cut a feature of any range into the
 requested number of bins

---
 src/weak_learner/decision_tree/bin.rs   | 23 ++++-------------------
 src/weak_learner/regression_tree/bin.rs | 23 ++++-------------------
 2 files changed, 8 insertions(+), 38 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..ded5b88 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -19,7 +19,6 @@ use crate::sample::{
 const EPS: f64 = 0.001;
 /// A tolerance parameter for numerical error.
 /// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -122,20 +121,13 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for i in 1..=n_bin {
+            let right = min + intercept * i as f64;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -176,20 +168,13 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for i in 1..=n_bin {
+            let right = min + intercept * i as f64;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..b2ab8c8 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -15,7 +15,6 @@ use crate::sample::{
 const EPS: f64 = 0.001;
 /// A tolerance parameter for numerical error.
 /// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -122,20 +121,13 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for i in 1..=n_bin {
+            let right = min + intercept * i as f64;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -176,20 +168,13 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
+        for i in 1..=n_bin {
+            let right = min + intercept * i as f64;
             bins.push(Bin::new(left..right));
 
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
-- 
2.43.0


From e0b0af8293ea4cb0609d83057dbe211b63449e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 25/50] fix: regression trees drop only bins without examples

---
 src/weak_learner/regression_tree/bin.rs | 29 ++++++++++---------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index b2ab8c8..af59c4f 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -190,6 +190,7 @@ impl Bins {
         let n_bins = self.0.len();
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
+        let mut is_empty = vec![true; n_bins];
 
         for &i in indices {
             let xi = feat[i];
@@ -204,8 +205,9 @@ impl Bins {
                 .unwrap();
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
+            is_empty[pos] = false;
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_empty_pack(grad_pack, hess_pack, is_empty)
     }
 
 
@@ -228,32 +230,23 @@ impl Bins {
     /// That is, this method
     /// - Change the bin bounds,
     /// - 
-    fn remove_zero_weight_pack_and_normalize(
+    fn remove_empty_pack(
         &self,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
+        is_empty: Vec<bool>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        // Bins without training examples are merged into their neighbors.
+        let mut iter = self.0.iter()
+            .zip(grad_pack.into_iter().zip(hess_pack))
+            .zip(is_empty)
+            .filter_map(|(item, is_empty)| if is_empty { None } else { Some(item) });
 
         let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
-
-        // The left-most bin might have zero weight.
-        // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
-            let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
-
-            let start = prev_bin.0.start;
-            let end = next_bin.0.end;
-            prev_bin = Bin::new(start..end);
-            prev_grad = next_grad;
-            prev_hess = next_hess;
-        }
+        prev_bin.0.start = self.0[0].0.start;
 
         let mut bin_and_gh = Vec::new();
         for (next_bin, (next_grad, next_hess)) in iter {
-- 
2.43.0


From 54e52f67cdd7f438cd8366a142e6e591820e9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 26/50] fix: regression trees split nodes whose gradients
 cancel

---
 .../regression_tree/regression_tree_algorithm.rs             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..ddd5588 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,9 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If no example on this node needs a correction, construct a leaf node.
+        let is_fitted = indices.iter().all(|&i| gradient[i] == 0.0);
+        if is_fitted || max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From cbf9797fc62116c6d959f472de673e748a526350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 27/50] fix: the bad base learner accepts nu up to the number
 of examples

---
 src/weak_learner/bad_learner/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/bad_learner/builder.rs b/src/weak_learner/bad_learner/builder.rs
index e445a02..fe5d937 100644
--- a/src/weak_learner/bad_learner/builder.rs
+++ b/src/weak_learner/bad_learner/builder.rs
@@ -43,7 +43,7 @@ impl BadBaseLearnerBuilder {
     /// By default, it is set as `DEFAULT_NU: f64 = 1f64.`
     pub fn nu(mut self, nu: f64) -> Self {
         assert!(
-            (1f64..self.n_sample as f64).contains(&nu),
+            (1f64..=self.n_sample as f64).contains(&nu),
             "The capping parameter must be in `[1, n_sample]`"
         );
         self.nu = nu;
-- 
2.43.0


From 5e556283bf0b3fe73dcf819045495ecbcff81b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 28/50] fix: each feature's variance enters the Gaussian
 log-density once

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 1a7bdefc5b764f0a406fd72bb21bd95dbf06beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 29/50] fix: naive Bayes copes with features that are constant
 within a label

---
 src/weak_learner/naive_bayes/probability.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index aa787f7..724dbae 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -7,6 +7,9 @@ use serde::{
 use core::f64::consts::PI;
 use crate::Sample;
 
+// A feature may be constant over the examples of a label.
+const MINIMAL_VARIANCE: f64 = 1e-18;
+
 
 pub trait Probability {
     fn log_probability(&self, sample: &Sample, row: usize) -> f64;
@@ -27,6 +30,9 @@ pub struct Gaussian {
 impl Gaussian {
     pub(super) fn new(means: Vec<f64>, vars: Vec<f64>) -> Self {
         assert_eq!(means.len(), vars.len());
+        let vars = vars.into_iter()
+            .map(|var| var.max(MINIMAL_VARIANCE))
+            .collect();
         Self { means, vars }
     }
 }
-- 
2.43.0


From 8c75add3c24d4be5d04ef83db26410f482ad8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 30/50] fix: naive Bayes compares labels in the log domain

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..126884f 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -65,7 +65,12 @@ impl<P: Probability> Classifier for NBayesClassifier<P>
 {
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
 
-        self.probabilities(sample, row).into_iter()
+        // Compare the logarithms since the probabilities may underflow.
+        self.conditionals.iter()
+            .map(|(y, prior, density)| {
+                let log_cond = density.log_probability(sample, row);
+                (*y, prior.ln() + log_cond)
+            })
             .reduce(|a, b| if a.1 > b.1 { a } else { b })
             .expect("Faied to compare the probabilities")
             .0
-- 
2.43.0


From da20523969e74a2725d961866cc543e2b1ba992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 31/50] fix: a combination of zero votes is empty

---
 src/hypothesis/weighted_majority.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 9edcf03..6904a4d 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -34,7 +34,10 @@ impl<H: Clone> WeightedMajority<H> {
                     new_hypotheses.push(h.clone());
                 }
             });
-        utils::normalize(&mut new_weights[..]);
+        // Without any vote there is nothing to normalize.
+        if !new_weights.is_empty() {
+            utils::normalize(&mut new_weights[..]);
+        }
 
 
         Self { weights: new_weights, hypotheses: new_hypotheses, }
-- 
2.43.0


From 09d50cee9b0bd6f8a2aea193ca1ac745df9fa7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 32/50] fix: regression trees without regularisation split the
 root

---
 .../regression_tree/regression_tree_algorithm.rs     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index ddd5588..99d07b4 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -304,16 +304,20 @@ fn best_split_at(
     let mut best_threshold = f64::MIN;
 
 
-    for (bin, grad, hess) in pack {
+    let n_bins = pack.len();
+    for (k, (bin, grad, hess)) in pack.into_iter().enumerate() {
         left_grad_sum  += grad;
         left_hess_sum  += hess;
         right_grad_sum -= grad;
         right_hess_sum -= hess;
 
 
-        let score = 
-            left_grad_sum.powi(2) / (left_hess_sum + lambda_l2)
-            + right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
+        let mut score = left_grad_sum.powi(2) / (left_hess_sum + lambda_l2);
+        // No example is on the right side of the last bin,
+        // what remains in the sums is a rounding error.
+        if k + 1 < n_bins {
+            score += right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
+        }
         if best_score < score {
             best_score = score;
             best_threshold = bin.0.end;
-- 
2.43.0


From 647f78a6eb85389f3081ccc9520689c5227e82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 33/50] fix: a single network output near +1 means the label +1

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0


From be97ff2a200b70ea178c0e166293f2d5f01c0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 34/50] fix: derivative of the sigmoid activation

---
 src/weak_learner/neural_network/activation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..2fc9d0c 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -84,8 +84,8 @@ fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
     let x = x.as_ref();
     x.iter()
         .map(|xi| {
-            let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
+            let p = 1.0 / (1.0 + (-eta * xi).exp());
+            eta * p * (1.0 - p)
         })
         .collect()
 }
-- 
2.43.0


From b37357ef250f7b7c18e3b3e80e34c1ff00643595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 35/50] fix: train a single binary output towards 0 or 1

---
 src/weak_learner/neural_network/nn_hypothesis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..d445c76 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -177,7 +177,11 @@ impl NNHypothesis {
                 });
 
             // Vectorize the target value to compute `delta`.
-            let y = task::vectorize(y, dim);
+            // A single output of a binary task is the confidence to be `+1`.
+            let y = match self.task {
+                Task::Binary if dim == 1 => vec![(y + 1.0) / 2.0],
+                _ => task::vectorize(y, dim),
+            };
             // Compute the `delta` for the last layer.
             let delta = loss_func.diff(final_output, y);
             batch_delta.push(delta);
-- 
2.43.0


From 227e5e29650a974d8c971a4269261024675d90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 36/50] fix: derivatives through a hidden softmax layer

---
 src/common/utils.rs                           | 19 -----------
 src/weak_learner/neural_network/activation.rs | 33 +++++++++++++++----
 .../neural_network/nn_hypothesis.rs           | 20 ++++++-----
 3 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..0a2b3a3 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -296,25 +296,6 @@ pub fn normalize(items: &mut [f64]) {
 }
 
 
-/// Computes the Hadamard product of given two matrices.
-#[inline(always)]
-pub fn hadamard_product(mut m1: Vec<Vec<f64>>, m2: Vec<Vec<f64>>)
-    -> Vec<Vec<f64>>
-{
-    assert_eq!(m1.len(), m2.len());
-    assert_eq!(m1[0].len(), m2[0].len());
-
-    m1.iter_mut()
-        .zip(m2)
-        .for_each(|(r1, r2)| {
-            r1.iter_mut()
-                .zip(r2)
-                .for_each(|(a, b)| { *a *= b; });
-        });
-    m1
-}
-
-
 pub(crate) fn total_weight_for_label(
     y: f64,
     target: &[f64],
diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index 2fc9d0c..a0f56ce 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -24,13 +24,29 @@ impl Activation {
         }
     }
 
-    pub(crate) fn diff<T: AsRef<[f64]>>(&self, x: T) -> Vec<f64> {
-        match self {
-            Self::SoftMax(eta) => softmax_diff(*eta, x),
+    /// Carries the derivatives `grad` of some function
+    /// with respect to the outputs of this activation at `x`
+    /// back to the derivatives with respect to `x`.
+    pub(crate) fn pull_back<T, U>(&self, x: T, grad: U) -> Vec<f64>
+        where T: AsRef<[f64]>,
+              U: AsRef<[f64]>,
+    {
+        let grad = grad.as_ref();
+        let diff = match self {
+            // Each output depends on all inputs.
+            Self::SoftMax(eta) => {
+                return softmax_pull_back(*eta, x, grad);
+            },
             Self::Sigmoid(eta) => sigmoid_diff(*eta, x),
             Self::ReLu(threshold) => relu_diff(*threshold, x),
             Self::Id => id_diff(x),
-        }
+        };
+        assert_eq!(diff.len(), grad.len());
+
+        diff.into_iter()
+            .zip(grad)
+            .map(|(d, g)| d * g)
+            .collect()
     }
 }
 
@@ -69,12 +85,15 @@ fn id<T: AsRef<[f64]>>(x: T) -> Vec<f64> {
 
 
 #[inline]
-fn softmax_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
-    let x = x.as_ref();
+fn softmax_pull_back<T: AsRef<[f64]>>(eta: f64, x: T, grad: &[f64])
+    -> Vec<f64>
+{
     let probabilities = softmax(eta, x);
+    let mean = utils::inner_product(&probabilities, grad);
 
     probabilities.into_iter()
-        .map(|p| eta * p * (1.0 - p))
+        .zip(grad)
+        .map(|(p, g)| eta * p * (g - mean))
         .collect()
 }
 
diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index d445c76..362af62 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -1,7 +1,6 @@
 use crate::{Sample, Classifier, Regressor};
 use crate::common::{
     task,
-    utils,
     task::Task,
 };
 use super::{
@@ -143,8 +142,9 @@ impl NNHypothesis {
         let indices = indices.as_ref();
         let batch_size = indices.len();
         let n_layers = self.layers.len();
-        // Keep sub-gradients for all layers.
-        let mut dfs = vec![Vec::with_capacity(batch_size); n_layers-1];
+        // Keep the inputs of activation functions
+        // of all layers except the last one.
+        let mut inputs = vec![Vec::with_capacity(batch_size); n_layers-1];
         // Keep the outputs for activation functions
         // of each layer for back propagation.
         let mut outputs = vec![Vec::with_capacity(batch_size); n_layers];
@@ -169,8 +169,7 @@ impl NNHypothesis {
                     let z = layer.nonlinear(&u);
 
                     if l+1 < n_layers {
-                        let df = layer.activation.diff(u);
-                        dfs[l].push(df);
+                        inputs[l].push(u);
                     }
 
                     z
@@ -189,7 +188,9 @@ impl NNHypothesis {
 
 
         let mut delta = batch_delta;
-        for layer in self.layers.iter_mut().rev() {
+        for l in (0..n_layers).rev() {
+            let (lower, upper) = self.layers.split_at_mut(l);
+            let layer = &mut upper[0];
             let weights = &layer.matrix[..];
 
             // Compute a matrix that is used to update `delta`.
@@ -209,8 +210,11 @@ impl NNHypothesis {
 
 
             // Update `delta` for the next layer
-            if let Some(df) = dfs.pop() {
-                delta = utils::hadamard_product(df, delta_x_weights);
+            if let (Some(us), Some(prev)) = (inputs.pop(), lower.last()) {
+                delta = us.into_iter()
+                    .zip(delta_x_weights)
+                    .map(|(u, g)| prev.activation.pull_back(u, g))
+                    .collect();
             }
         }
     }
-- 
2.43.0


From 5adfa1dd0511dc90310c73fb63136759ec26925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 37/50] Feature verif: access to network parameters for
 verification

---
 Cargo.toml                                    |  2 +
 src/weak_learner/neural_network/layer.rs      | 18 +++++++
 .../neural_network/nn_hypothesis.rs           | 50 +++++++++++++++++++
 3 files changed, 70 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 0048924..3d2c9a9 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -30,3 +30,5 @@ colored     = { version = "2.1.0" }
 
 [features]
 gurobi = ["grb"]
+# Access to network parameters for verification; off by default.
+verif = []
diff --git a/src/weak_learner/neural_network/layer.rs b/src/weak_learner/neural_network/layer.rs
index 3fbaf8f..916da8b 100644
--- a/src/weak_learner/neural_network/layer.rs
+++ b/src/weak_learner/neural_network/layer.rs
@@ -105,6 +105,24 @@ impl Layer {
     }
 }
 
+#[cfg(feature = "verif")]
+impl Layer {
+    /// A layer of the given parameters.
+    pub(crate) fn verif_new(
+        matrix: Vec<Vec<f64>>,
+        bias: Vec<f64>,
+        activation: Activation,
+    ) -> Self
+    {
+        let (nrow, ncol) = (matrix.len(), matrix[0].len());
+        let mut layer = Self::new(nrow, ncol, activation);
+        layer.matrix = matrix;
+        layer.bias = bias;
+        layer
+    }
+}
+
+
 /// Computes `A^T B` for matrices `A` and `B`.
 #[inline(always)]
 pub(super) fn matrix_inner_product(m1: &[Vec<f64>], m2: &[Vec<f64>])
diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 362af62..097ea93 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -221,6 +221,56 @@ impl NNHypothesis {
 }
 
 
+/// Weights, biases and activation of a layer.
+#[cfg(feature = "verif")]
+pub type VerifLayer = (Vec<Vec<f64>>, Vec<f64>, Activation);
+
+
+#[cfg(feature = "verif")]
+#[allow(missing_docs)]
+impl NNHypothesis {
+    pub fn verif_new(layers: Vec<VerifLayer>) -> Self {
+        let layers = layers.into_iter()
+            .map(|(matrix, bias, act)| Layer::verif_new(matrix, bias, act))
+            .collect();
+        Self { task: Task::Binary, layers }
+    }
+
+
+    pub fn verif_layers(&self) -> Vec<VerifLayer> {
+        self.layers.iter()
+            .map(|l| (l.matrix.clone(), l.bias.clone(), l.activation))
+            .collect()
+    }
+
+
+    pub fn verif_eval(&self, x: Vec<f64>) -> Vec<f64> {
+        self.eval(x)
+    }
+
+
+    pub fn verif_train(
+        &mut self,
+        rate: f64,
+        loss_func: NNLoss,
+        sample: &Sample,
+        indices: &[usize],
+    )
+    {
+        self.train(rate, loss_func, sample, indices);
+    }
+}
+
+
+#[cfg(feature = "verif")]
+#[allow(missing_docs)]
+impl NNClassifier {
+    pub fn verif_network(&self) -> &NNHypothesis {
+        &self.0
+    }
+}
+
+
 impl Classifier for NNClassifier {
     #[inline(always)]
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
-- 
2.43.0


From 8ca496398ce0b3bf1581edad8b7e61dc7cf3c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 38/50] Feature verif: access to the utility functions for
 verification

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4c9df33..efa9b7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -240,3 +240,11 @@ pub use research::{
         ExponentialLoss,
     },
 };
+
+
+/// Access to internal functions for the verification harness.
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::common::utils;
+}
-- 
2.43.0


From d278cfd0e1d4fed2c98856d05437eff0700a072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 39/50] fix: escape feature names in dot files

---
 src/weak_learner/decision_tree/node.rs   | 4 +++-
 src/weak_learner/regression_tree/node.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/decision_tree/node.rs b/src/weak_learner/decision_tree/node.rs
index 7f81b87..24e0dd4 100644
--- a/src/weak_learner/decision_tree/node.rs
+++ b/src/weak_learner/decision_tree/node.rs
@@ -151,7 +151,9 @@ impl Node {
             Node::Branch(b) => {
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
+                    feat = b.rule.feature
+                        .replace('\\', "\\\\")
+                        .replace('"', "\\\""),
                     thr = b.rule.threshold.0
                 );
 
diff --git a/src/weak_learner/regression_tree/node.rs b/src/weak_learner/regression_tree/node.rs
index bf8af88..beee91f 100644
--- a/src/weak_learner/regression_tree/node.rs
+++ b/src/weak_learner/regression_tree/node.rs
@@ -158,7 +158,9 @@ impl Node {
             Node::Branch(b) => {
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
+                    feat = b.rule.feature
+                        .replace('\\', "\\\\")
+                        .replace('"', "\\\""),
                     thr = b.rule.threshold.0
                 );
 
-- 
2.43.0


From c468ead60185154ca5f7e6d6d5129e7cb086b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 40/50] fix: tell labels apart that an i32 cannot hold

---
 src/sample/sample_struct.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 434e6e7..1c8f676 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -1,7 +1,7 @@
 use std::path::Path;
 use std::fs::File;
 use std::io::{self, BufRead, BufReader};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Index;
 use std::mem;
 use std::cmp::Ordering;
@@ -403,12 +403,9 @@ impl Sample {
 
 
         // Check whether the target values takes exactly 2 kinds.
-        let set = self.target.iter()
-            .copied()
-            .map(|yi| yi as i32)
-            .collect::<HashSet<_>>();
-        let n_label = set.len();
-        match set.len().cmp(&2) {
+        let labels = self.unique_target();
+        let n_label = labels.len();
+        match n_label.cmp(&2) {
             Ordering::Greater => {
                 panic!(
                     "The target values take more than 2 kinds. \
@@ -426,9 +423,9 @@ impl Sample {
 
 
         // Check whether the target values takes +1 or -1.
-        let is_pm = set.iter().all(|y| y.eq(&1) || y.eq(&-1));
+        let is_pm = labels.iter().all(|y| y.abs() == 1f64);
         if !is_pm {
-            let line = set.iter()
+            let line = labels.iter()
                 .map(|y| y.to_string())
                 .collect::<Vec<_>>()
                 .join(", ");
-- 
2.43.0


From 8cd5b4d42ce7f85587b6088cdf3e89948bee97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 41/50] fix: refuse CSV lines that lack a value

---
 src/sample/sample_struct.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 1c8f676..531ee5d 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -113,12 +113,18 @@ impl Sample {
                 continue;
             }
 
-            line.split(',')
+            let xs = line.split(',')
                 .map(|x| x.trim().parse::<f64>().unwrap())
-                .enumerate()
-                .for_each(|(i, x)| {
-                    features[i].append(x);
-                });
+                .collect::<Vec<_>>();
+            assert_eq!(
+                xs.len(), features.len(),
+                "A line of the file has {} values, expected {}.",
+                xs.len(), features.len()
+            );
+
+            for (feat, x) in features.iter_mut().zip(xs) {
+                feat.append(x);
+            }
 
             n_sample += 1;
         }
-- 
2.43.0


From 6470aaeb6b38ef7f8001f9e9c75b890f384636b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 42/50] fix: the feature of a dummy sample has a value for
 every example

---
 src/sample/sample_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 531ee5d..69d3e42 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -40,7 +40,9 @@ impl Sample {
         let mut target = vec![1f64; n_sample];
         target[half..].iter_mut()
             .for_each(|y| { *y = -1f64; });
-        let features = vec![Feature::new_sparse("dummy")];
+        let mut feature = Feature::new_sparse("dummy");
+        feature.set_n_sample(n_sample);
+        let features = vec![feature];
         Self {
             name_to_index: HashMap::from([("dummy".to_string(), 0)]),
             features,
-- 
2.43.0


From 21971ce571c0698c8b2fab945a7ae8d9ae58f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 43/50] fix: CERLPBoost's round limit counts the examples
 before preprocessing too

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 15ad8f7..a8ede83 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -225,7 +225,7 @@ impl<'a, F> CERLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&mut self) -> usize {
 
-        let m = self.dist.len() as f64;
+        let m = self.sample.shape().0 as f64;
 
         let ln_m = (m / self.nu).ln();
         let max_iter = (4.0 / self.half_tolerance)
-- 
2.43.0


From ad14fa17c855002701a20c4ce8e68122a5bd9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 44/50] fix: CERLPBoost reports the capping ratio in percent

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index a8ede83..66eecaa 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -271,7 +271,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
 
     fn info(&self) -> Option<Vec<(&str, String)>> {
         let (n_sample, n_feature) = self.sample.shape();
-        let ratio = self.nu / n_sample as f64;
+        let ratio = self.nu * 100f64 / n_sample as f64;
         let nu = utils::format_unit(self.nu);
         let fw = self.frank_wolfe.current_type();
         let info = Vec::from([
-- 
2.43.0


From 07ac89daf9a1be1d7abaa7ffbeaf3ba502cc324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 45/50] fix: decision trees do not depend on the order of hash
 maps

---
 src/weak_learner/common/type_and_struct.rs         |  4 ++--
 src/weak_learner/decision_tree/criterion.rs        | 14 +++++++-------
 .../decision_tree/decision_tree_algorithm.rs       |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/weak_learner/common/type_and_struct.rs b/src/weak_learner/common/type_and_struct.rs
index 0b55ece..9cdcd99 100644
--- a/src/weak_learner/common/type_and_struct.rs
+++ b/src/weak_learner/common/type_and_struct.rs
@@ -1,11 +1,11 @@
 use serde::{Serialize, Deserialize};
 use std::{fmt, cmp, ops};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 
 /// This is an alias from label of type `i32` 
 /// to non-negative weight of type `f64`.
-pub type LabelToWeight = HashMap<i32, f64>;
+pub type LabelToWeight = BTreeMap<i32, f64>;
 
 
 #[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..46faa84 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -8,7 +8,7 @@ use serde::{Serialize, Deserialize};
 use std::fmt;
 use std::cmp::Ordering;
 use std::ops::{Mul, Add};
-use std::collections::{HashSet, HashMap};
+use std::collections::{BTreeSet, HashMap};
 
 use crate::Sample;
 use super::bin::*;
@@ -314,7 +314,7 @@ fn split_by_twoing(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
     let mut left_weight = LabelToWeight::new();
     let mut right_weight = LabelToWeight::new();
 
-    let mut labels = HashSet::new();
+    let mut labels = BTreeSet::new();
     for (_, mp) in pack.iter() {
         for (y, w) in mp.iter() {
             let entry = right_weight.entry(*y).or_insert(0f64);
@@ -355,7 +355,7 @@ fn split_by_twoing(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
 
 /// Returns the entropic-impurity of the given map.
 #[inline(always)]
-fn entropic_impurity(map: &HashMap<i32, f64>) -> f64 {
+fn entropic_impurity(map: &LabelToWeight) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
@@ -370,7 +370,7 @@ fn entropic_impurity(map: &HashMap<i32, f64>) -> f64 {
 
 /// Returns the gini-impurity of the given map.
 #[inline(always)]
-fn gini_impurity(map: &HashMap<i32, f64>) -> f64 {
+fn gini_impurity(map: &LabelToWeight) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
@@ -385,9 +385,9 @@ fn gini_impurity(map: &HashMap<i32, f64>) -> f64 {
 /// Returns the gini-impurity of the given map.
 #[inline(always)]
 fn twoing_score(
-    labels: &HashSet<i32>,
-    left: &HashMap<i32, f64>,
-    right: &HashMap<i32, f64>,
+    labels: &BTreeSet<i32>,
+    left: &LabelToWeight,
+    right: &LabelToWeight,
 ) -> f64
 {
     let pl = left.values().sum::<f64>();
diff --git a/src/weak_learner/decision_tree/decision_tree_algorithm.rs b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
index de1455c..0532501 100644
--- a/src/weak_learner/decision_tree/decision_tree_algorithm.rs
+++ b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
@@ -19,7 +19,7 @@ use super::{
 
 use std::fmt;
 use std::rc::Rc;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 
 /// The Decision Tree algorithm.  
@@ -234,7 +234,7 @@ fn confidence_and_loss(sample: &Sample, dist: &[f64], indices: &[usize])
 
     assert_ne!(indices.len(), 0);
     let target = sample.target();
-    let mut counter: HashMap<i64, f64> = HashMap::new();
+    let mut counter: BTreeMap<i64, f64> = BTreeMap::new();
 
     for &i in indices {
         let l = target[i] as i64;
-- 
2.43.0


From 2c6cef679687372f3f208e4eb2ccd3191bc33c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 46/50] fix: sums do not depend on how they are spread over
 threads

---
 src/common/utils.rs                                       | 2 +-
 src/weak_learner/decision_tree/bin.rs                     | 2 +-
 src/weak_learner/decision_tree/criterion.rs               | 8 ++++----
 src/weak_learner/decision_tree/decision_tree_algorithm.rs | 2 +-
 src/weak_learner/naive_bayes/probability.rs               | 3 +--
 .../regression_tree/regression_tree_algorithm.rs          | 8 ++++----
 6 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index 0a2b3a3..625b9ce 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -275,7 +275,7 @@ pub fn entropy<T: AsRef<[f64]>>(dist: T) -> f64 {
 /// Compute the inner-product of the given two slices.
 #[inline(always)]
 pub fn inner_product(v1: &[f64], v2: &[f64]) -> f64 {
-    v1.into_par_iter()
+    v1.iter()
         .zip(v2)
         .map(|(a, b)| a * b)
         .sum::<f64>()
diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index ded5b88..9659975 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -234,7 +234,7 @@ impl Bins {
         pack: Vec<LabelToWeight>
     ) -> Vec<(Bin, LabelToWeight)>
     {
-        let total_weight = pack.par_iter()
+        let total_weight = pack.iter()
             .map(|mp| mp.values().sum::<f64>())
             .sum::<f64>();
         assert!(total_weight > 0.0);
diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 46faa84..2501952 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -359,8 +359,8 @@ fn entropic_impurity(map: &LabelToWeight) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
-    map.par_iter()
-        .map(|(_, &p)| {
+    map.values()
+        .map(|&p| {
             let r = p / total;
             if r <= 0f64 { 0f64 } else { -r * r.ln() }
         })
@@ -374,8 +374,8 @@ fn gini_impurity(map: &LabelToWeight) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
-    let correct = map.par_iter()
-        .map(|(_, &w)| (w / total).powi(2))
+    let correct = map.values()
+        .map(|&w| (w / total).powi(2))
         .sum::<f64>();
 
     (1f64 - correct).max(0f64)
diff --git a/src/weak_learner/decision_tree/decision_tree_algorithm.rs b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
index 0532501..1d0e6ff 100644
--- a/src/weak_learner/decision_tree/decision_tree_algorithm.rs
+++ b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
@@ -104,7 +104,7 @@ impl<'a> DecisionTree<'a> {
         depth: Depth,
     ) -> TrainNodePtr
     {
-        let total_weight = indices.par_iter()
+        let total_weight = indices.iter()
             .copied()
             .map(|i| dist[i])
             .sum::<f64>();
diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index 724dbae..fdfe9c0 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -1,4 +1,3 @@
-use rayon::prelude::*;
 use serde::{
     Serialize,
     Deserialize,
@@ -45,7 +44,7 @@ impl Probability for Gaussian {
 
         let gauss_const: f64 = n_features * (2.0_f64 * PI).ln();
 
-        let non_const = self.means.par_iter()
+        let non_const = self.means.iter()
             .zip(&self.vars[..])
             .zip(sample.features())
             .map(|((&mean, &var), feat)| {
diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index 99d07b4..43656e0 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -288,10 +288,10 @@ fn best_split_at(
     lambda_l2: f64,
 ) -> (LossValue, Threshold)
 {
-    let mut right_grad_sum = pack.par_iter()
+    let mut right_grad_sum = pack.iter()
         .map(|(_, grad, _)| grad)
         .sum::<f64>();
-    let mut right_hess_sum = pack.par_iter()
+    let mut right_hess_sum = pack.iter()
         .map(|(_, _, hess)| hess)
         .sum::<f64>();
 
@@ -338,11 +338,11 @@ fn prediction_and_loss(
     lambda_l2: f64,
 ) -> (Prediction<f64>, LossValue)
 {
-    let grad_sum = indices.par_iter()
+    let grad_sum = indices.iter()
         .map(|&i| gradient[i])
         .sum::<f64>();
 
-    let hess_sum = indices.par_iter()
+    let hess_sum = indices.iter()
         .map(|&i| hessian[i])
         .sum::<f64>();
 
-- 
2.43.0


From 09a20f4fa3be2465e6513f5ee05a304d0ccd22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:06 +0000
Subject: [PATCH 47/50] fix: ERLPBoost's sequential program runs until its
 value settles

---
 src/booster/erlpboost/qp_model.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index cadebb8..62be4d6 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -12,8 +12,13 @@ use crate::hypothesis::Classifier;
 
 use std::iter;
 
-const EPS: f64 = 1e-100;
+/// Relative to the uniform weight, the least weight the quadratic
+/// approximation is taken at; keeps the program well-conditioned when
+/// some weights vanish.
+const FLOOR: f64 = 1e-4;
 const QP_TOLERANCE: f64 = 1e-9;
+/// The number of quadratic approximations solved at most.
+const MAX_QP: usize = 100;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -136,7 +141,7 @@ impl QPModel {
             .for_each(|di| {
                 *di = 1f64 / self.n_examples as f64;
             });
-        loop {
+        for _ in 0..MAX_QP {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
                 .verbose(false)
@@ -163,7 +168,7 @@ impl QPModel {
             );
 
             let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE
+            if (old_objval - objval).abs() < QP_TOLERANCE
                 || solver.solution.status == SolverStatus::InsufficientProgress
             {
                 break;
@@ -181,12 +186,13 @@ impl QPModel {
 
 
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
+        let floor = FLOOR / self.n_examples as f64;
         let mut linear = Vec::with_capacity(1 + self.n_examples);
         linear.push(1f64);
         let iter = dist.iter()
             .copied()
             .map(|di| {
-                let coef = (di + EPS).ln();
+                let coef = di.max(floor).ln();
                 assert!(coef.is_finite());
                 coef / self.eta
             });
@@ -199,6 +205,7 @@ impl QPModel {
         -> CscMatrix::<f64>
     {
         let eta = self.eta;
+        let floor = FLOOR / self.n_examples as f64;
         let n_rows = dist.len() + 1;
         let n_cols = n_rows;
 
@@ -207,7 +214,7 @@ impl QPModel {
         let col_ptr = iter::once(0).chain(0..=n_examples).collect();
         let row_idx = (1..=n_examples).collect();
         let nonzero = dist.iter()
-            .map(|&d| 1f64 / ((d + EPS) * eta))
+            .map(|&d| 1f64 / (d.max(floor) * eta))
             .collect();
         CscMatrix::new(n_rows, n_cols, col_ptr, row_idx, nonzero)
     }
-- 
2.43.0


From 357a45c6fd4994d9fb8b5163aab757e960a81a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 48/50] fix: terminated() is 0 before the boosting step, as
 documented

---
 src/booster/erlpboost/erlpboost_algorithm.rs | 2 +-
 src/booster/lpboost/lpboost_algorithm.rs     | 2 +-
 src/booster/mlpboost/mlpboost_algorithm.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booster/erlpboost/erlpboost_algorithm.rs b/src/booster/erlpboost/erlpboost_algorithm.rs
index 9340f9e..70848db 100644
--- a/src/booster/erlpboost/erlpboost_algorithm.rs
+++ b/src/booster/erlpboost/erlpboost_algorithm.rs
@@ -184,7 +184,7 @@ impl<'a, F> ERLPBoost<'a, F> {
             n_sample,
             nu: 1.0,
 
-            terminated: usize::MAX,
+            terminated: 0,
             max_iter: usize::MAX,
         }
     }
diff --git a/src/booster/lpboost/lpboost_algorithm.rs b/src/booster/lpboost/lpboost_algorithm.rs
index 355b256..ef588d1 100644
--- a/src/booster/lpboost/lpboost_algorithm.rs
+++ b/src/booster/lpboost/lpboost_algorithm.rs
@@ -174,7 +174,7 @@ impl<'a, F> LPBoost<'a, F>
             weights: Vec::new(),
 
 
-            terminated: usize::MAX,
+            terminated: 0,
         }
     }
 
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index a7c524b..d1bf779 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -212,7 +212,7 @@ impl<'a, F> MLPBoost<'a, F> {
             weights: Vec::new(),
             hypotheses: Vec::new(),
 
-            terminated: usize::MAX,
+            terminated: 0,
             max_iter: usize::MAX,
 
             gamma: 1.0,
-- 
2.43.0


From 0c927e778fbe78aae5123c92779973d81a27020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 49/50] fix: GraphSepBoost reports the round it ends in

---
 .../graph_separation_boosting/graph_separation_algorithm.rs     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/graph_separation_boosting/graph_separation_algorithm.rs b/src/booster/graph_separation_boosting/graph_separation_algorithm.rs
index ccd911e..d2b9997 100644
--- a/src/booster/graph_separation_boosting/graph_separation_algorithm.rs
+++ b/src/booster/graph_separation_boosting/graph_separation_algorithm.rs
@@ -221,7 +221,7 @@ impl<F> Booster<F> for GraphSepBoost<'_, F>
             .sum::<usize>();
         if self.n_edges == n_edges {
             eprintln!("[WARN] number of edges does not decrease.");
-            return ControlFlow::Break(iteration+1);
+            return ControlFlow::Break(iteration);
         }
         self.n_edges = n_edges;
 
-- 
2.43.0


From 9853153908b6bf6c6ec561f93d2072a14bb7e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:35 +0000
Subject: [PATCH 50/50] fix: a sparse feature counts zeros that are written out
 explicitly

---
 src/sample/feature_struct.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 3e9486d..1853f43 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -403,13 +403,17 @@ impl SparseFeature {
 
     /// Returns `true` if this feature has zero values.
     pub fn has_zero(&self) -> bool {
-        self.len() < self.n_sample
+        self.zero_counts() > 0
     }
 
 
     /// Returns the number of indices that have zero-value.
     pub fn zero_counts(&self) -> usize {
-        self.n_sample - self.len()
+        // An item of `self.sample` may be a zero written out explicitly.
+        let n_nonzeros = self.sample.iter()
+            .filter(|(_, x)| *x != 0.0)
+            .count();
+        self.n_sample.saturating_sub(n_nonzeros)
     }
 
 
-- 
2.43.0

