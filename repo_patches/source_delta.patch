From 50cf0c9aea5f2ed24ec9cca176ac6592621bd66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 01/57] fix: sparse per-label mean averages the examples of
 that label

The condition was inverted and the stored entries were zipped with the first
targets instead of the targets of their own rows.
---
 src/sample/feature_struct.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..c49b770 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -450,9 +450,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|&(i, f)|
+                if target[i] != y { 0.0 } else { weight[i] * f }
             )
             .sum::<f64>()
             / total_weight
-- 
2.43.0


From c7e11b884ab5bbf7b4098678d7b683dc53896ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/57] fix: sparse per-label variance counts zeros of that
 label only

---
 src/sample/feature_struct.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index c49b770..9c3e575 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -496,14 +496,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From 040fc494b167fea6022f193961a27e65ec9e38de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/57] fix: splitting a sparse sample numbers the rows of each
 part from zero

Test rows and the training rows behind the test block kept the row index of the
whole sample, and zero entries were stored explicitly, so sparse parts had rows
out of range and wrong values.
---
 src/sample/feature_struct.rs |  3 ++-
 src/sample/sample_struct.rs  | 10 +++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 9c3e575..cf107a8 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -79,7 +79,8 @@ impl Feature {
     pub(crate) fn append(&mut self, i: usize, f: f64) {
         match self {
             Self::Dense(feat) => { feat.append(f); },
-            Self::Sparse(feat) => { feat.append((i, f)); }
+            // A sparse feature stores the non-zero values only.
+            Self::Sparse(feat) => if f != 0.0 { feat.append((i, f)); },
         }
     }
 
diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..7bb08b2 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -571,21 +571,17 @@ impl Sample {
             }
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(start) {
+        let train_ix = ix[..start].iter().chain(&ix[end..]);
+        for (i, &ii) in train_ix.enumerate() {
             let (x, y) = self.at(ii);
             train.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
+        for (i, &ii) in ix[start..end].iter().enumerate() {
             let (x, y) = self.at(ii);
             test.append(i, x, y);
         }
 
-        for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
-            let (x, y) = self.at(ii);
-            train.append(i, x, y);
-        }
-
         (train, test)
     }
 }
-- 
2.43.0


From f3af460251fcfffe6aea59b34df2f2695d86cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/57] fix: cross validation does not panic on folds beyond
 the last example

With 6, 7 or 11 examples even the default settings have such a fold.
---
 src/research/cross_validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..4d5e820 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -146,7 +146,8 @@ impl<'a> CrossValidation<'a> {
     fn fold_at(&self, i: usize) -> (Sample, Sample) {
         let sample_size = self.sample.shape().0;
         let test_size = sample_size - self.train_size;
-        let (start, end) = (i*test_size, ((i+1)*test_size).min(sample_size));
+        let start = (i*test_size).min(sample_size);
+        let end = ((i+1)*test_size).min(sample_size);
         self.sample.split(&self.ix, start, end)
     }
 }
-- 
2.43.0


From 3962feb00500513ae1f0acf9ede4268a2159a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/57] fix: refuse CSV lines with a missing field

Such a line shifted every later value of the short columns up by one row.
---
 src/sample/sample_struct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 7bb08b2..8469cb1 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -113,6 +113,12 @@ impl Sample {
                 continue;
             }
 
+            let n_field = line.split(',').count();
+            assert_eq!(
+                n_field, features.len(),
+                "The number of fields in Line {i} differs from \
+                the number of columns."
+            );
             line.split(',')
                 .map(|x| x.trim().parse::<f64>().unwrap())
                 .enumerate()
-- 
2.43.0


From fc136b2a04089d4d88e007eb0829935920d5c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 06/57] fix: AdaBoost, AdaBoostV and MadaBoost stop at a
 perfect hypothesis despite rounding

---
 src/booster/adaboost/adaboost_algorithm.rs   | 4 +++-
 src/booster/adaboostv/adaboostv_algorithm.rs | 4 +++-
 src/booster/madaboost/madaboost_algorithm.rs | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 3f1e332..73f3004 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -322,7 +322,9 @@ impl<F> Booster<F> for AdaBoost<'_, F>
 
         // If `h` predicted all the examples in `sample` correctly,
         // use it as the combined classifier.
-        if edge.abs() >= 1.0 {
+        // Note that the entries of the distribution may sum up to
+        // slightly less than `1.0`, so `edge` alone does not tell it.
+        if edge.abs() >= 1.0 || margins.iter().all(|&yh| yh >= 1.0) {
             self.terminated = iteration;
             self.weights = vec![edge.signum()];
             self.hypotheses = vec![h];
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index ada5e76..0a48443 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -356,7 +356,9 @@ impl<F> Booster<F> for AdaBoostV<'_, F>
 
         // If `h` predicted all the examples in `self.sample` correctly,
         // use it as the combined classifier.
-        if edge.abs() >= 1.0 {
+        // Note that the entries of the distribution may sum up to
+        // slightly less than `1.0`, so `edge` alone does not tell it.
+        if edge.abs() >= 1.0 || margins.iter().all(|&yh| yh >= 1.0) {
             self.terminated = iteration;
             self.weights = vec![edge.signum()];
             self.hypotheses = vec![h];
diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..1564fd7 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -338,7 +338,9 @@ impl<F> Booster<F> for MadaBoost<'_, F>
 
         // If `h` predicted all the examples in `sample` correctly,
         // use it as the combined classifier.
-        if edge.abs() >= 1.0 {
+        // Note that the entries of the distribution may sum up to
+        // slightly less than `1.0`, so `edge` alone does not tell it.
+        if edge.abs() >= 1.0 || margins.iter().all(|&yh| yh >= 1.0) {
             self.terminated = iteration;
             self.alphas = vec![edge.signum()];
             self.hypotheses = vec![h];
-- 
2.43.0


From 8a987389a226e1bae1d991df391beffebb95b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 07/57] fix: C-ERLPBoost, MLPBoost and SoftBoost make at least
 one round when nu is the sample size

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 3 ++-
 src/booster/mlpboost/mlpboost_algorithm.rs     | 4 +++-
 src/booster/softboost/softboost_algorithm.rs   | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..2365d4e 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -229,7 +229,8 @@ impl<'a, F> CERLPBoost<'a, F> {
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // At least one round is necessary even if `self.nu == m`.
+        (max_iter.ceil() as usize).max(1)
     }
 
 
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..78b6104 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -297,7 +297,9 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        let max_iter = 8.0_f64 * ln_m / self.half_tolerance.powi(2);
+        // At least one round is necessary even if `self.nu == self.n_sample`.
+        (max_iter.ceil() as usize).max(1)
     }
 
 
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..a26e4fb 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,8 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // At least one round is necessary even if `self.nu == n_sample`.
+        (max_iter.ceil() as usize).max(1)
     }
 }
 
-- 
2.43.0


From 451e477f482a5be4a17eeb9333180b9852a1261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 08/57] fix: C-ERLPBoost keeps the first hypothesis even if its
 edge is within the tolerance

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 2365d4e..57e718a 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -356,8 +356,9 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
 
         let diff = new_edge - old_edge;
 
-        // Update the parameters
-        if diff <= self.half_tolerance {
+        // Check the stopping criterion.
+        // There is no combined hypothesis to return before the first update.
+        if !self.hypotheses.is_empty() && diff <= self.half_tolerance {
             self.terminated = iteration;
             return ControlFlow::Break(iteration);
         }
-- 
2.43.0


From 9a07a84082123cb1199f6ef28c46d04e5cf43911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 09/57] fix: the capped exponential weighting does not exceed
 the cap by a rounding error

---
 src/common/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..05b99ee 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -236,9 +236,10 @@ pub fn project_log_distribution_to_capped_simplex<I>(
 
         // Check the stopping criterion
         if log_xi + d + log_nu <= 0.0 {
-            dist[i_sorted] = (log_xi + d).exp();
+            // `min` guards against the rounding error of `exp` and `ln`.
+            dist[i_sorted] = (log_xi + d).exp().min(ub);
             for (_, (ii, _)) in ix_with_logsum {
-                dist[ii] = (log_xi + dist[ii]).exp();
+                dist[ii] = (log_xi + dist[ii]).exp().min(ub);
             }
             break;
         }
-- 
2.43.0


From ea6fd32d6016d848dc490a04148286a5c65403a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 10/57] fix: LPBoost's linear program weights the slacks by
 1/nu

---
 src/booster/lpboost/lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..4f8e127 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
-- 
2.43.0


From a0af63807954512ffa8caab82bffbed03673798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 11/57] fix: Gini split does not panic when a label's remaining
 weight is lost to rounding

---
 src/weak_learner/decision_tree/criterion.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 3f510c1..2f1af6a 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -285,12 +285,13 @@ fn split_by_gini(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
             let entry = left_weight.entry(y).or_insert(0f64);
             *entry += w;
             left_weight_sum += w;
-            let entry = right_weight.get_mut(&y).unwrap();
-            *entry -= w;
             right_weight_sum -= w;
-
-
-            if *entry <= 0f64 { right_weight.remove(&y); }
+            // A label is removed too early
+            // when the rounding error exceeds its remaining weight.
+            if let Some(entry) = right_weight.get_mut(&y) {
+                *entry -= w;
+                if *entry <= 0f64 { right_weight.remove(&y); }
+            }
         }
         let lp = left_weight_sum / weight_sum;
         let rp = (1f64 - lp).max(0f64);
-- 
2.43.0


From acfb64ca5eced1c75e7617f8c279b43121fb6db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 12/57] fix: SoftBoost's quadratic program caps the weights at
 1/nu

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..706f4ec 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From d8eae65287819ca405edc0ab35f107bfb76578ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 13/57] fix: MLPBoost does not panic on numerical errors of the
 LP solution

---
 src/booster/mlpboost/perturbed_lp_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..734801b 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -134,7 +134,12 @@ impl LPModel {
             solver.solve();
 
             let ix = 2 * self.n_examples + 1;
-            self.weights = solver.solution.z[ix..].to_vec();
+            // The dual solution may leave the probability simplex
+            // by a numerical error of the solver.
+            self.weights = solver.solution.z[ix..].iter()
+                .map(|w| w.max(0f64))
+                .collect();
+            utils::normalize(&mut self.weights[..]);
             self.dist = solver.solution.x[1..].to_vec();
         }
 
-- 
2.43.0


From 3425788713eee1b27ebcaf5474b9748906c50746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 14/57] fix: SmoothBoost's vote counts every hypothesis

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..37b59b7 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -345,7 +345,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
         where W: WeakLearner<Hypothesis = F>
     {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -357,7 +357,7 @@ impl<H> Research for SmoothBoost<'_, H>
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
         let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let weights = vec![weight; self.hypotheses.len()];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From a292df32519162899d80fedb96a00472239a1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/57] fix: MadaBoost lowers the weights of the examples
 classified correctly

---
 src/booster/madaboost/madaboost_algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index 1564fd7..99f5a04 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,8 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        // `betas` holds the logarithms.
+        self.betas = vec![0.0; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From caef18c8550dae3c9147b5242119efac367d7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 16/57] fix: SmoothBoost starts the accumulated margins at zero

---
 src/booster/smoothboost/smoothboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 37b59b7..69d47f9 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -269,7 +269,7 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
 
 
         self.m = vec![1.0; self.n_sample];
-        self.n = vec![1.0; self.n_sample];
+        self.n = vec![0.0; self.n_sample];
     }
 
 
-- 
2.43.0


From e0fa65aa1499cf69719c52b4e66f70f96bc27dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 17/57] fix: line search of Frank-Wolfe maximizes the objective

---
 src/common/frank_wolfe.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..918a2b2 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,9 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,16 +218,20 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
-        // `dot` is `d * A (e_h - w)`
+        // `dot` is `d * A (e_h - w)`,
+        // the derivative of the (concave) objective function.
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +256,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
-- 
2.43.0


From f14fd74d2a92096a49eb0b87a9790801ff0c0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 18/57] fix: blended pairwise Frank-Wolfe compares the active
 hypotheses with the new one

---
 src/common/frank_wolfe.rs | 45 ++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 918a2b2..c13639c 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -283,13 +283,12 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
-        // Find a hypothesis that has a smallest edge.
+        // Find the hypotheses that have the smallest / largest edges
+        // over the active ones.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -302,16 +301,11 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
 
                 if edge < worst_edge {
                     worst_edge = edge;
@@ -319,14 +313,18 @@ impl FrankWolfe {
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
+        // If there is no active hypothesis, only the FW update is possible.
+        if position_of_worst_one == hypotheses.len() {
+            return self.line_search(
+                sample, hypotheses, position_of_new_one, weights,
+            );
         }
 
+        // The global FW atom is the newly attained one.
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one]
+        );
+
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
         );
@@ -360,20 +358,19 @@ impl FrankWolfe {
 
             let margins = dir_margins.iter()
                 .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
+                .map(|(dir, cur)| cur + max_stepsize * dir);
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Add `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
+                weights[position_of_local_best_one] += max_stepsize;
                 weights[position_of_worst_one] = 0.0;
                 return weights;
             }
@@ -394,9 +391,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From e8f569a91b915d4cb0658b44b32c64c760dbc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 19/57] fix: SoftBoost's edge constraints subtract the
 tolerance, and it stops when they are infeasible

---
 src/booster/softboost/qp_model.rs            | 6 ++++++
 src/booster/softboost/softboost_algorithm.rs | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 706f4ec..d47c799 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -140,6 +140,12 @@ impl QPModel {
             );
 
             solver.solve();
+            // there is no distribution that satisfies the constraints.
+            if solver.solution.status != SolverStatus::Solved
+                && solver.solution.status != SolverStatus::AlmostSolved
+            {
+                return None;
+            }
             let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index a26e4fb..0ff79c9 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -253,7 +253,10 @@ impl<F> SoftBoost<'_, F>
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(
+                self.sample, &mut self.dist[..],
+                self.gamma_hat - self.tolerance, h,
+            )
     }
 }
 
-- 
2.43.0


From 52e44d55b304c1349302995c500a8585f9e9ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 20/57] fix: SoftBoost's sequential quadratic programming
 continues until it converges

---
 src/booster/softboost/qp_model.rs | 50 +++++++++++++------------------
 src/common/utils.rs               | 25 ++++++++++++++++
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index d47c799..54375e9 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -12,7 +12,9 @@ use crate::hypothesis::Classifier;
 
 use std::iter;
 
-const QP_TOLERANCE: f64 = 1e-9;
+const MOVEMENT_TOLERANCE: f64 = 1e-6;
+const MAX_SQP_ITER: usize = 100;
+const FEASIBILITY_TOLERANCE: f64 = 1e-6;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -121,8 +123,7 @@ impl QPModel {
         let rhs = self.build_rhs(ghat);
 
 
-        let mut old_objval = 1e9;
-        loop {
+        for _ in 0..MAX_SQP_ITER {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
                 .verbose(false)
@@ -140,38 +141,27 @@ impl QPModel {
             );
 
             solver.solve();
-            // there is no distribution that satisfies the constraints.
-            if solver.solution.status != SolverStatus::Solved
-                && solver.solution.status != SolverStatus::AlmostSolved
-            {
-                return None;
-            }
-            let solution = &solver.solution.x[..];
-
-            // breaks if there is a zero-valued coordinate in the solution.
-            if !self.all_positive(solution) { return None; }
-            dist.iter_mut()
-                .zip(solution)
-                .for_each(|(di, s)| { *di = *s; });
-
-            let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE {
-                break;
-            }
-            old_objval = objval;
+            // Numerical errors do not matter if the solution is accurate.
+            let solution = &solver.solution;
+            let solved = match solution.status {
+                SolverStatus::Solved | SolverStatus::AlmostSolved => true,
+                SolverStatus::InsufficientProgress
+                    => solution.r_prim < FEASIBILITY_TOLERANCE,
+                _ => false,
+            };
+            // There is no distribution that satisfies the constraints.
+            if !solved { return None; }
+
+            let movement = utils::move_inside_positive_orthant(
+                dist, &solver.solution.x[..]
+            );
+            if movement < MOVEMENT_TOLERANCE { break; }
         }
+        utils::normalize(dist);
         Some(())
     }
 
 
-    /// Returns `true` if `dist[i] > 0` holds for all `i = 1, 2, ..., m.` 
-    pub(self) fn all_positive(&self, dist: &[f64]) -> bool {
-        dist.iter()
-            .copied()
-            .all(|d| d > 0f64)
-    }
-
-
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
         let mut linear = Vec::with_capacity(self.n_examples);
         let iter = dist.iter()
diff --git a/src/common/utils.rs b/src/common/utils.rs
index 05b99ee..03c2ef1 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -7,6 +7,10 @@ use crate::{Sample, Classifier};
 use crate::common::checker;
 
 
+/// The smallest weight in the entropy minimization problems.
+const MIN_WEIGHT: f64 = 1e-8;
+
+
 /// Returns the edge of a single hypothesis for the given distribution.
 /// Here `edge` is the weighted training loss.
 /// 
@@ -251,6 +255,27 @@ pub fn project_log_distribution_to_capped_simplex<I>(
 }
 
 
+/// Replaces `dist` by `target`, a solution of the sequential quadratic
+/// programming.
+/// Non-positive coordinates of `target` stop short of zero
+/// since the entropy function is not differentiable there.
+/// Returns the largest change of the coordinates.
+pub(crate) fn move_inside_positive_orthant(
+    dist: &mut [f64],
+    target: &[f64],
+) -> f64
+{
+    dist.iter_mut()
+        .zip(target)
+        .map(|(d, &t)| {
+            let old = *d;
+            *d = t.max(0.01 * old).max(MIN_WEIGHT);
+            (*d - old).abs()
+        })
+        .fold(0f64, f64::max)
+}
+
+
 /// Compute the relative entropy from the uniform distribution.
 #[inline(always)]
 pub fn entropy_from_uni_distribution<T: AsRef<[f64]>>(dist: T) -> f64 {
-- 
2.43.0


From c8700c37f43e4cdf16bd16bc3b57a6c03329ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 21/57] fix: ERLPBoost's sequential quadratic programming
 continues until it converges

---
 src/booster/erlpboost/qp_model.rs | 46 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index cadebb8..9b64b7b 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -13,7 +13,9 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const EPS: f64 = 1e-100;
-const QP_TOLERANCE: f64 = 1e-9;
+const MOVEMENT_TOLERANCE: f64 = 1e-6;
+const MAX_SQP_ITER: usize = 100;
+const FEASIBILITY_TOLERANCE: f64 = 1e-6;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -129,14 +131,12 @@ impl QPModel {
         let rhs = self.build_rhs();
 
 
-        let mut old_objval = 1e3;
-
         // Initialize `dist` as the uniform distribution.
         self.dist.iter_mut()
             .for_each(|di| {
                 *di = 1f64 / self.n_examples as f64;
             });
-        loop {
+        for _ in 0..MAX_SQP_ITER {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
                 .verbose(false)
@@ -154,29 +154,25 @@ impl QPModel {
             );
 
             solver.solve();
-            assert!(
-                solver.solution.status == SolverStatus::Solved
-                || solver.solution.status == SolverStatus::AlmostSolved
-                || solver.solution.status == SolverStatus::InsufficientProgress,
-                "unexpected solver status. got {}",
-                solver.solution.status,
-            );
-
-            let objval = solver.solution.obj_val;
-            if old_objval - objval < QP_TOLERANCE
-                || solver.solution.status == SolverStatus::InsufficientProgress
-            {
-                break;
+            let solution = &solver.solution;
+            let solved = match solution.status {
+                SolverStatus::Solved | SolverStatus::AlmostSolved => true,
+                _ => false,
+            };
+            if solved || self.weights.len() < self.n_hypotheses {
+                let start = 1 + 2 * self.n_examples;
+                self.weights = solution.z[start..].into_iter()
+                    .map(|wi| wi.max(0f64))
+                    .collect();
             }
-            old_objval = objval;
-            self.dist = solver.solution.x[1..].into_iter()
-                .map(|di| di.max(0f64))
-                .collect();
-            let start = 1 + 2 * self.n_examples;
-            self.weights = solver.solution.z[start..].into_iter()
-                .map(|wi| wi.max(0f64))
-                .collect();
+            // The solution does not satisfy the constraints.
+            if !solved && !(solution.r_prim < FEASIBILITY_TOLERANCE) { break; }
+            let movement = utils::move_inside_positive_orthant(
+                &mut self.dist[..], &solver.solution.x[1..]
+            );
+            if movement < MOVEMENT_TOLERANCE { break; }
         }
+        utils::normalize(&mut self.dist[..]);
     }
 
 
-- 
2.43.0


From e8ab62226c02a46fd659f99be0f62147d31a0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 22/57] fix: MLPBoost's linear program caps the weights at 1/nu

---
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 734801b..97c6f5c 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -184,7 +184,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 9312443f448dc3524e4cf4666b2715e2a65b1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 23/57] fix: the gradient of the L1 loss has the opposite sign

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..054c818 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From 94e9e36f6b99914acbe0a339e1708ac779808ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 24/57] fix: best coefficient of the L2 loss minimizes the
 loss, and that of the zero function is zero

---
 src/common/loss_functions.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 054c818..f344cc7 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,37 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                // The zero function does not change the loss.
+                if items.is_empty() { return 0f64; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let rp_sum = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p.powi(2))
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // The zero function does not change the loss.
+                if pp_sum == 0f64 { return 0f64; }
 
-                y_sum / p_sum
+                rp_sum / pp_sum
             },
         }
     }
-- 
2.43.0


From 08a2e4e520a4bf1f9fda3463cfbddad2101e13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 25/57] fix: GBM fits the coefficient to the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..ff6fcd5 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions)
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From 9ed86355f6bae28da9aa411f8e99f2f7c52a5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 26/57] fix: the output of GBM is the sum of the hypotheses,
 not their average

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index ff6fcd5..4a8e7e1 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,12 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        // The coefficients are used as they are since the output is
+        // not an average but the sum of the hypotheses.
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From da2bf1ce85111b951196add6899dde0c757297ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 27/57] fix: binning a feature does not panic on tiny, huge or
 rounding-prone ranges

---
 src/weak_learner/decision_tree/bin.rs   | 51 +++++++++----------------
 src/weak_learner/regression_tree/bin.rs | 51 +++++++++----------------
 2 files changed, 34 insertions(+), 68 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..9f5d171 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::cut_range(min, max, n_bin)
     }
 
 
@@ -171,24 +149,29 @@ impl Bins {
         }
 
 
+        Self::cut_range(min, max, n_bin)
+    }
+
+
+    /// Cut the range from `min` to `max` into `n_bin` bins with same width.
+    /// Bins that have no width in the floating point numbers are left out.
+    fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
         let intercept = (max - min) / n_bin as f64;
 
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
+        for k in 1..=n_bin {
+            // Each edge is computed from `min`
+            // since the rounding errors accumulate otherwise.
+            let right = if k == n_bin { max } else { min + intercept * k as f64 };
+            if left < right {
+                bins.push(Bin::new(left..right));
+                left = right;
+            }
         }
 
-
-        assert_eq!(bins.len(), n_bin);
+        if bins.is_empty() { bins.push(Bin::new(min..max)); }
 
         Self(bins)
     }
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..2a47d2e 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -117,26 +114,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
-
-        let mut bins = Vec::with_capacity(n_bin);
-
-        let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
-        }
-
-
-        assert_eq!(bins.len(), n_bin);
-
-        Self(bins)
+        Self::cut_range(min, max, n_bin)
     }
 
 
@@ -171,24 +149,29 @@ impl Bins {
         }
 
 
+        Self::cut_range(min, max, n_bin)
+    }
+
+
+    /// Cut the range from `min` to `max` into `n_bin` bins with same width.
+    /// Bins that have no width in the floating point numbers are left out.
+    fn cut_range(min: f64, max: f64, n_bin: usize) -> Self {
         let intercept = (max - min) / n_bin as f64;
 
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
-            let right = left + intercept;
-            bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
-            left = right;
+        for k in 1..=n_bin {
+            // Each edge is computed from `min`
+            // since the rounding errors accumulate otherwise.
+            let right = if k == n_bin { max } else { min + intercept * k as f64 };
+            if left < right {
+                bins.push(Bin::new(left..right));
+                left = right;
+            }
         }
 
-
-        assert_eq!(bins.len(), n_bin);
+        if bins.is_empty() { bins.push(Bin::new(min..max)); }
 
         Self(bins)
     }
-- 
2.43.0


From aac74b332b4b8f1cb693e5fe8ffefb0f27afc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 28/57] fix: regression trees do not cut through bins whose
 gradients cancel

---
 src/weak_learner/regression_tree/bin.rs | 47 ++++++++++---------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 2a47d2e..d77889e 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -188,6 +188,7 @@ impl Bins {
         let n_bins = self.0.len();
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
+        let mut count_pack = vec![0usize; n_bins];
 
         for &i in indices {
             let xi = feat[i];
@@ -202,48 +203,38 @@ impl Bins {
                 .unwrap();
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
+            count_pack[pos] += 1;
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_empty_pack(grad_pack, hess_pack, count_pack)
     }
 
 
 
-    /// This method removes bins with zero weights.
-    /// # Example
-    /// Assume that we have bins and its weight.
-    /// ```text
-    /// Bins       | [-3.0, 2.5), [2.5, 7.0), [7.0, 8.1), [8.1, 9.0)
-    /// Weights(+) |     0.5,        0.0,        0.0,        0.2
-    /// Weights(-) |     0.0,        0.0,        0.0,        0.1
-    /// ```
-    /// This method remove zero-weight bins and normalize the weights
-    /// like this:
-    /// ```text
-    /// Bins       | [-3.0, 5.3), [5.3, 9.0)
-    /// Weights(+) |     0.625,      0.25
-    /// Weights(-) |     0.0,        0.125
-    /// ```
-    /// That is, this method
-    /// - Change the bin bounds,
-    /// - 
-    fn remove_zero_weight_pack_and_normalize(
+    /// This method removes bins that contain no example,
+    /// and changes the bounds of the other bins.
+    /// A bin that contains some examples remains
+    /// even if its gradient and hessian are zero,
+    /// otherwise the new bounds may divide the examples in it.
+    fn remove_empty_pack(
         &self,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
+        count_pack: Vec<usize>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        let mut iter = self.0.iter()
+            .zip(grad_pack.into_iter().zip(hess_pack))
+            .zip(count_pack);
 
-        let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
+        let ((prev_bin, (mut prev_grad, mut prev_hess)), prev_count) = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
+        let mut iter = iter.filter(|(_, count)| *count > 0)
+            .map(|(item, _)| item);
 
-        // The left-most bin might have zero weight.
-        // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
+        // The left-most bin might be empty.
+        // In this case, find the next non-empty bin and merge.
+        if prev_count == 0 {
             let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
 
             let start = prev_bin.0.start;
-- 
2.43.0


From 66dbcf78cc43a62859cf508af4f1616e1b2f3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 29/57] fix: rounding errors do not keep unregularized
 regression trees from splitting

---
 .../regression_tree/regression_tree_algorithm.rs       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..144497b 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -303,16 +303,20 @@ fn best_split_at(
     let mut best_threshold = f64::MIN;
 
 
+    let mut n_right = pack.len();
     for (bin, grad, hess) in pack {
         left_grad_sum  += grad;
         left_hess_sum  += hess;
         right_grad_sum -= grad;
         right_hess_sum -= hess;
+        n_right -= 1;
 
 
-        let score = 
-            left_grad_sum.powi(2) / (left_hess_sum + lambda_l2)
-            + right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
+        let mut score = left_grad_sum.powi(2) / (left_hess_sum + lambda_l2);
+        // After the last bin, only rounding errors remain on the right.
+        if n_right > 0 {
+            score += right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
+        }
         if best_score < score {
             best_score = score;
             best_threshold = bin.0.end;
-- 
2.43.0


From ec23f6bc5663781205cd17c8d176403350239f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 30/57] fix: a regression tree splits nodes whose gradients sum
 to zero

---
 .../regression_tree/regression_tree_algorithm.rs           | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index 144497b..e66bc70 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,11 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If no example has a gradient, construct a leaf node.
+        // Note that the sum of the gradients may vanish
+        // even if some split improves the loss.
+        let is_optimal = indices.iter().all(|&i| gradient[i] == 0.0);
+        if is_optimal || max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From 8e60b5c79072356051ea568bcafc6b1230c5a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 31/57] fix: the Gaussian density counts the variance of each
 feature once

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 5643cb6de1e5690096180ddb4310ec3085dad86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 32/57] fix: naive Bayes compares the classes in the logarithm

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..2558764 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -65,7 +65,14 @@ impl<P: Probability> Classifier for NBayesClassifier<P>
 {
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
 
-        self.probabilities(sample, row).into_iter()
+        // The probabilities are compared in the logarithm,
+        // since they vanish far from the training examples.
+        // A class without weight has no density.
+        self.conditionals.iter()
+            .filter(|(_, prior, _)| *prior > 0.0)
+            .map(|(y, prior, density)| {
+                (*y, prior.ln() + density.log_probability(sample, row))
+            })
             .reduce(|a, b| if a.1 > b.1 { a } else { b })
             .expect("Faied to compare the probabilities")
             .0
-- 
2.43.0


From 9822ba942fc47c77fbb10cbb9c09d1fb643f7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 33/57] hook: access to the parameters of a neural network (cfg
 vp_hooks)

---
 .../neural_network/nn_hypothesis.rs           | 61 +++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..92a74af 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -249,3 +249,64 @@ impl Regressor for NNRegressor {
         }
     }
 }
+
+
+/// Access for the runtime monitors to the parameters and to a training step.
+#[cfg(vp_hooks)]
+impl NNHypothesis {
+    /// `n_class` is `0` for regression, `2` for binary classification.
+    pub fn vp_new(n_class: usize, dims: &[usize], acts: &[Activation]) -> Self {
+        let task = match n_class {
+            0 => Task::Regression,
+            2 => Task::Binary,
+            k => Task::MultiClass(k),
+        };
+        Self::new(task, dims, acts)
+    }
+
+
+    /// The weights and biases of the layers.
+    pub fn vp_params(&self) -> Vec<(Vec<Vec<f64>>, Vec<f64>)> {
+        self.layers.iter()
+            .map(|l| (l.matrix.clone(), l.bias.clone()))
+            .collect()
+    }
+
+
+    /// Replace the weights and biases of the layers.
+    pub fn vp_set_params(&mut self, params: Vec<(Vec<Vec<f64>>, Vec<f64>)>) {
+        for (l, (matrix, bias)) in self.layers.iter_mut().zip(params) {
+            l.matrix = matrix;
+            l.bias = bias;
+        }
+    }
+
+
+    /// Perform one training step.
+    pub fn vp_train(
+        &mut self,
+        rate: f64,
+        loss: NNLoss,
+        sample: &Sample,
+        indices: &[usize],
+    )
+    {
+        self.train(rate, loss, sample, indices);
+    }
+
+
+    /// The output of the network.
+    pub fn vp_eval(&self, x: Vec<f64>) -> Vec<f64> {
+        self.eval(x)
+    }
+}
+
+
+/// Access for the runtime monitors to the network.
+#[cfg(vp_hooks)]
+impl NNClassifier {
+    /// The network of this classifier.
+    pub fn vp_network(&self) -> &NNHypothesis {
+        &self.0
+    }
+}
-- 
2.43.0


From 93ca17d757d8c8474d343a74a147fd393f70cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 34/57] fix: the derivative of the sigmoid squares the
 denominator

---
 src/weak_learner/neural_network/activation.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..b3de4fa 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -81,12 +81,10 @@ fn softmax_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
 
 #[inline]
 fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
-    let x = x.as_ref();
-    x.iter()
-        .map(|xi| {
-            let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
-        })
+    let values = sigmoid(eta, x);
+
+    values.into_iter()
+        .map(|s| eta * s * (1.0 - s))
         .collect()
 }
 
-- 
2.43.0


From 5ee55956b490506c843ff9e8a91cc4bc38e771ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 35/57] fix: a network with one output classifies by the
 confidence to be +1

---
 src/common/task.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..3897b85 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,7 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
+        2.0 * y[0] - 1.0
         // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
-- 
2.43.0


From 48af3049e3b8316c4a3dac0115a7b7a66de6ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 36/57] fix: a network with one output is trained towards zero
 for the label -1

---
 src/weak_learner/neural_network/nn_hypothesis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 92a74af..942b33c 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -177,6 +177,9 @@ impl NNHypothesis {
                 });
 
             // Vectorize the target value to compute `delta`.
+            // A single output for binary classification is
+            // the confidence to be `+1`, so that its target is `0` or `1`.
+            let y = if self.task == Task::Binary && dim == 1 { y.max(0.0) } else { y };
             let y = task::vectorize(y, dim);
             // Compute the `delta` for the last layer.
             let delta = loss_func.diff(final_output, y);
-- 
2.43.0


From 4cd73777f0f34107c3f2e4bb6010dc7406c5f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 37/57] fix: the exponential loss is that of the confidence,
 not of the predicted class

---
 src/research/objective_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/research/objective_functions.rs b/src/research/objective_functions.rs
index 5c2f220..7092c9c 100644
--- a/src/research/objective_functions.rs
+++ b/src/research/objective_functions.rs
@@ -165,10 +165,10 @@ impl<H> ObjectiveFunction<H> for ExponentialLoss
         let n_sample = sample.shape().0 as f64;
         let target = sample.target();
 
-        hypothesis.predict_all(sample)
+        hypothesis.confidence_all(sample)
             .into_iter()
             .zip(target.iter())
-            .map(|(hx, y)| (- y * hx as f64).exp())
+            .map(|(hx, y)| (- y * hx).exp())
             .sum::<f64>()
             / n_sample
     }
-- 
2.43.0


From 39810d5ae0599bd7a071597ae4d29f72be83d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:42 +0000
Subject: [PATCH 38/57] fix: the logged time does not lose the fraction of a
 millisecond of every round

---
 src/research/logger.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/research/logger.rs b/src/research/logger.rs
index 523826e..9e92390 100644
--- a/src/research/logger.rs
+++ b/src/research/logger.rs
@@ -11,7 +11,7 @@ use super::ObjectiveFunction;
 use std::fs::File;
 use std::io::prelude::*;
 use std::path::Path;
-use std::time::Instant;
+use std::time::{Duration, Instant};
 use std::ops::ControlFlow;
 
 const DEFAULT_ROUND: usize = 100;
@@ -225,7 +225,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
 
         // Cumulative time
-        let mut time_acc = 0;
+        let mut elapsed = Duration::ZERO;
 
         // ---------------------------------------------------------------------
         // Boosting step
@@ -236,11 +236,11 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             let flow = self.booster.boost(&self.weak_learner, iter);
 
-            // Stop measuring and convert `Duration` to Milliseconds.
-            let time = now.elapsed().as_millis();
+            // Stop measuring and update the cumulative time
+            elapsed += now.elapsed();
 
-            // Update the cumulative time
-            time_acc += time;
+            // Convert `Duration` to Milliseconds.
+            let time_acc = elapsed.as_millis();
 
             let hypothesis = self.booster.current_hypothesis();
 
-- 
2.43.0


From d88362695d3409d082a5cf9a9d321d1e9ae29480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 39/57] fix: a decision tree does not depend on the random
 order of a hash map

---
 src/weak_learner/common/type_and_struct.rs         |  4 ++--
 src/weak_learner/decision_tree/criterion.rs        | 14 +++++++-------
 .../decision_tree/decision_tree_algorithm.rs       |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/weak_learner/common/type_and_struct.rs b/src/weak_learner/common/type_and_struct.rs
index 0b55ece..9cdcd99 100644
--- a/src/weak_learner/common/type_and_struct.rs
+++ b/src/weak_learner/common/type_and_struct.rs
@@ -1,11 +1,11 @@
 use serde::{Serialize, Deserialize};
 use std::{fmt, cmp, ops};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 
 /// This is an alias from label of type `i32` 
 /// to non-negative weight of type `f64`.
-pub type LabelToWeight = HashMap<i32, f64>;
+pub type LabelToWeight = BTreeMap<i32, f64>;
 
 
 #[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
diff --git a/src/weak_learner/decision_tree/criterion.rs b/src/weak_learner/decision_tree/criterion.rs
index 2f1af6a..d619a6c 100644
--- a/src/weak_learner/decision_tree/criterion.rs
+++ b/src/weak_learner/decision_tree/criterion.rs
@@ -8,7 +8,7 @@ use serde::{Serialize, Deserialize};
 use std::fmt;
 use std::cmp::Ordering;
 use std::ops::{Mul, Add};
-use std::collections::{HashSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use crate::Sample;
 use super::bin::*;
@@ -315,7 +315,7 @@ fn split_by_twoing(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
     let mut left_weight = LabelToWeight::new();
     let mut right_weight = LabelToWeight::new();
 
-    let mut labels = HashSet::new();
+    let mut labels = BTreeSet::new();
     for (_, mp) in pack.iter() {
         for (y, w) in mp.iter() {
             let entry = right_weight.entry(*y).or_insert(0f64);
@@ -356,7 +356,7 @@ fn split_by_twoing(pack: Vec<(Bin, LabelToWeight)>) -> (f64, Score) {
 
 /// Returns the entropic-impurity of the given map.
 #[inline(always)]
-fn entropic_impurity(map: &HashMap<i32, f64>) -> f64 {
+fn entropic_impurity(map: &BTreeMap<i32, f64>) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
@@ -371,7 +371,7 @@ fn entropic_impurity(map: &HashMap<i32, f64>) -> f64 {
 
 /// Returns the gini-impurity of the given map.
 #[inline(always)]
-fn gini_impurity(map: &HashMap<i32, f64>) -> f64 {
+fn gini_impurity(map: &BTreeMap<i32, f64>) -> f64 {
     let total = map.values().sum::<f64>();
     if total <= 0f64 || map.is_empty() { return 0f64; }
 
@@ -386,9 +386,9 @@ fn gini_impurity(map: &HashMap<i32, f64>) -> f64 {
 /// Returns the gini-impurity of the given map.
 #[inline(always)]
 fn twoing_score(
-    labels: &HashSet<i32>,
-    left: &HashMap<i32, f64>,
-    right: &HashMap<i32, f64>,
+    labels: &BTreeSet<i32>,
+    left: &BTreeMap<i32, f64>,
+    right: &BTreeMap<i32, f64>,
 ) -> f64
 {
     let pl = left.values().sum::<f64>();
diff --git a/src/weak_learner/decision_tree/decision_tree_algorithm.rs b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
index de1455c..0532501 100644
--- a/src/weak_learner/decision_tree/decision_tree_algorithm.rs
+++ b/src/weak_learner/decision_tree/decision_tree_algorithm.rs
@@ -19,7 +19,7 @@ use super::{
 
 use std::fmt;
 use std::rc::Rc;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 
 /// The Decision Tree algorithm.  
@@ -234,7 +234,7 @@ fn confidence_and_loss(sample: &Sample, dist: &[f64], indices: &[usize])
 
     assert_ne!(indices.len(), 0);
     let target = sample.target();
-    let mut counter: HashMap<i64, f64> = HashMap::new();
+    let mut counter: BTreeMap<i64, f64> = BTreeMap::new();
 
     for &i in indices {
         let l = target[i] as i64;
-- 
2.43.0


From 9f985fa94a6849c5752bcf36597df91480b6696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 40/57] fix: labels that are not 32-bit integers are refused

---
 src/sample/sample_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 8469cb1..5a80534 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -394,7 +394,7 @@ impl Sample {
 
         // Check whether the target values can be converted into integers.
         let non_integers = self.target.iter()
-            .filter(|&yi| !yi.trunc().eq(yi))
+            .filter(|&yi| !f64::from(*yi as i32).eq(yi))
             .collect::<Vec<_>>();
         if !non_integers.is_empty() {
             let line = non_integers.iter().take(5)
-- 
2.43.0


From 8feb6a77cdba3036a239299405dee33125661705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 41/57] fix: AdaBoost and AdaBoostV survive weights that
 underflow to zero

---
 src/booster/adaboost/adaboost_algorithm.rs   | 6 ++++++
 src/booster/adaboostv/adaboostv_algorithm.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 73f3004..4cb0dbd 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -228,6 +228,12 @@ impl<'a, F> AdaBoost<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // Weights may underflow to zero, whose logarithm is `-inf`.
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index 0a48443..f2756e9 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -264,6 +264,12 @@ impl<'a, F> AdaBoostV<'a, F> {
                 std::mem::swap(&mut a, &mut b);
             }
 
+            // Weights may underflow to zero, whose logarithm is `-inf`.
+            if b == f64::NEG_INFINITY {
+                normalizer = a;
+                continue;
+            }
+
             normalizer = a + (1.0 + (b - a).exp()).ln();
         }
 
-- 
2.43.0


From d76c579cca4dd311fc6cda20bb33b6f087c9b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 42/57] fix: SoftBoost uses an accurate solution although the
 solver reached its iteration limit

---
 src/booster/softboost/qp_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 54375e9..6a2823e 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -145,7 +145,7 @@ impl QPModel {
             let solution = &solver.solution;
             let solved = match solution.status {
                 SolverStatus::Solved | SolverStatus::AlmostSolved => true,
-                SolverStatus::InsufficientProgress
+                SolverStatus::InsufficientProgress | SolverStatus::MaxIterations
                     => solution.r_prim < FEASIBILITY_TOLERANCE,
                 _ => false,
             };
-- 
2.43.0


From 6e89e737a615250e573e616d1e233ef2d22130ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 43/57] fix: feature names are escaped in the drawing of a tree

---
 src/weak_learner/common/split_rule.rs    | 8 ++++++++
 src/weak_learner/decision_tree/node.rs   | 2 +-
 src/weak_learner/regression_tree/node.rs | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/weak_learner/common/split_rule.rs b/src/weak_learner/common/split_rule.rs
index be9840c..94a3d0a 100644
--- a/src/weak_learner/common/split_rule.rs
+++ b/src/weak_learner/common/split_rule.rs
@@ -31,6 +31,14 @@ impl Splitter {
     }
 
 
+    /// Returns the feature name that can be written
+    /// in a double-quoted string of the DOT language.
+    #[inline]
+    pub(crate) fn dot_feature(&self) -> String {
+        self.feature.replace('\\', "\\\\").replace('"', "\\\"")
+    }
+
+
     /// Defines the splitting.
     #[inline]
     pub fn split(&self, sample: &Sample, row: usize) -> LR {
diff --git a/src/weak_learner/decision_tree/node.rs b/src/weak_learner/decision_tree/node.rs
index 7f81b87..e1c08df 100644
--- a/src/weak_learner/decision_tree/node.rs
+++ b/src/weak_learner/decision_tree/node.rs
@@ -151,7 +151,7 @@ impl Node {
             Node::Branch(b) => {
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
+                    feat = b.rule.dot_feature(),
                     thr = b.rule.threshold.0
                 );
 
diff --git a/src/weak_learner/regression_tree/node.rs b/src/weak_learner/regression_tree/node.rs
index bf8af88..0d884a3 100644
--- a/src/weak_learner/regression_tree/node.rs
+++ b/src/weak_learner/regression_tree/node.rs
@@ -158,7 +158,7 @@ impl Node {
             Node::Branch(b) => {
                 let b_info = format!(
                     "\tnode_{id} [ label = \"{feat} < {thr:.2} ?\" ];\n",
-                    feat = b.rule.feature,
+                    feat = b.rule.dot_feature(),
                     thr = b.rule.threshold.0
                 );
 
-- 
2.43.0


From 2542ef36217998bd88a1c98addcb7f54c5ea3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:55 +0000
Subject: [PATCH 44/57] fix: to_dot_file returns the error of a failed write
 instead of panicking

---
 src/weak_learner/decision_tree/decision_tree_classifier.rs | 7 +++----
 .../regression_tree/regression_tree_regressor.rs           | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/weak_learner/decision_tree/decision_tree_classifier.rs b/src/weak_learner/decision_tree/decision_tree_classifier.rs
index 4b9d034..3aa3581 100644
--- a/src/weak_learner/decision_tree/decision_tree_classifier.rs
+++ b/src/weak_learner/decision_tree/decision_tree_classifier.rs
@@ -44,10 +44,9 @@ impl DecisionTreeClassifier {
 
 
         let info = self.root.to_dot_info(0).0;
-        info.into_iter()
-            .for_each(|row| {
-                f.write_all(row.as_bytes()).unwrap();
-            });
+        for row in info {
+            f.write_all(row.as_bytes())?;
+        }
 
         f.write_all(b"}")?;
 
diff --git a/src/weak_learner/regression_tree/regression_tree_regressor.rs b/src/weak_learner/regression_tree/regression_tree_regressor.rs
index 4b55c47..32bd69b 100644
--- a/src/weak_learner/regression_tree/regression_tree_regressor.rs
+++ b/src/weak_learner/regression_tree/regression_tree_regressor.rs
@@ -46,10 +46,9 @@ impl RegressionTreeRegressor {
 
 
         let info = self.root.to_dot_info(0).0;
-        info.into_iter()
-            .for_each(|row| {
-                f.write_all(row.as_bytes()).unwrap();
-            });
+        for row in info {
+            f.write_all(row.as_bytes())?;
+        }
 
         f.write_all(b"}")?;
 
-- 
2.43.0


From 4c55d4a7ca722bdda178fa9fab5746c40cdf453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 45/57] fix: Logger::run returns the error of a failed write
 instead of panicking

---
 src/research/logger.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/research/logger.rs b/src/research/logger.rs
index 9e92390..eacf12d 100644
--- a/src/research/logger.rs
+++ b/src/research/logger.rs
@@ -230,6 +230,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
         // ---------------------------------------------------------------------
         // Boosting step
         if self.round != usize::MAX { self.print_log_header(); }
+        let mut written = Ok(());
         (1..).try_for_each(|iter| {
             // Start measuring time
             let now = Instant::now();
@@ -250,8 +251,10 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
 
             // Write the results to `file`.
             let line = format!("{obj},{train},{test},{time_acc}\n");
-            file.write_all(line.as_bytes())
-                .expect("Failed to writing {filename:?}");
+            if let Err(error) = file.write_all(line.as_bytes()) {
+                written = Err(error);
+                return ControlFlow::Break(iter);
+            }
 
             if time_acc > self.time_limit {
                 println!(
@@ -293,6 +296,7 @@ impl<H, B, W, F, G, O> Logger<'_, B, W, F, G>
             }
             flow
         });
+        written?;
 
 
         let f = self.booster.postprocess(&self.weak_learner);
-- 
2.43.0


From e6dd18c58abf88c9d5b34516bfcd4f0f5e9957d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 46/57] fix: C-ERLPBoost states the capping in percent

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 57e718a..1f73f12 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -270,7 +270,7 @@ impl<F> Booster<F> for CERLPBoost<'_, F>
 
     fn info(&self) -> Option<Vec<(&str, String)>> {
         let (n_sample, n_feature) = self.sample.shape();
-        let ratio = self.nu / n_sample as f64;
+        let ratio = self.nu * 100f64 / n_sample as f64;
         let nu = utils::format_unit(self.nu);
         let fw = self.frank_wolfe.current_type();
         let info = Vec::from([
-- 
2.43.0


From d0287975e01d61efa0b1fdb12e354bbcfbf8f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 47/57] fix: terminated() of ERLPBoost and MLPBoost is 0 before
 the run, as documented

---
 src/booster/erlpboost/erlpboost_algorithm.rs | 2 +-
 src/booster/mlpboost/mlpboost_algorithm.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/erlpboost/erlpboost_algorithm.rs b/src/booster/erlpboost/erlpboost_algorithm.rs
index c810573..1200cac 100644
--- a/src/booster/erlpboost/erlpboost_algorithm.rs
+++ b/src/booster/erlpboost/erlpboost_algorithm.rs
@@ -184,7 +184,7 @@ impl<'a, F> ERLPBoost<'a, F> {
             n_sample,
             nu: 1.0,
 
-            terminated: usize::MAX,
+            terminated: 0,
             max_iter: usize::MAX,
         }
     }
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index 78b6104..1feeaa7 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -212,7 +212,7 @@ impl<'a, F> MLPBoost<'a, F> {
             weights: Vec::new(),
             hypotheses: Vec::new(),
 
-            terminated: usize::MAX,
+            terminated: 0,
             max_iter: usize::MAX,
 
             gamma: 1.0,
-- 
2.43.0


From 24721360732b760cfecdfb586263faf9db1c5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 48/57] fix: GBM::max_loop returns the number of rounds a run
 makes at most

---
 src/booster/gradient_boost/gbm.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 4a8e7e1..7c698f3 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -155,9 +155,7 @@ impl<F, L> GBM<'_, F, L> {
     /// that has error at most `tolerance`.
     /// Default max loop is `100`.
     pub fn max_loop(&self) -> usize {
-        let n_sample = self.sample.shape().0 as f64;
-
-        (n_sample.ln() / self.tolerance.powi(2)) as usize
+        self.max_iter
     }
 
 
-- 
2.43.0


From 81569a42496d319e41bc09d41858b998ceb7eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 49/57] fix: C-ERLPBoost's max_loop is the iteration bound
 before the run, too

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f73f12..329494e 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -224,7 +224,7 @@ impl<'a, F> CERLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&mut self) -> usize {
 
-        let m = self.dist.len() as f64;
+        let m = self.sample.shape().0 as f64;
 
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
-- 
2.43.0


From 84746ee80a7d53f9be5ed78bcd9331917221b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 50/57] fix: CrossValidation shuffles by the seed that is set,
 even after shuffle()

---
 src/research/cross_validation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 4d5e820..976174f 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -64,6 +64,7 @@ pub struct CrossValidation<'a> {
     seed: u64,
     sample: &'a Sample,
     ix: Vec<usize>,
+    shuffle: bool,
     verbose: bool,
 }
 
@@ -79,6 +80,7 @@ impl<'a> CrossValidation<'a> {
             current_fold: 0,
             n_folds: 5,
             seed: 1234,
+            shuffle: false,
             verbose: false,
             train_size,
             sample,
@@ -134,8 +136,7 @@ impl<'a> CrossValidation<'a> {
     /// By default, `CrossValidation` does not shuffle the sample.
     #[inline]
     pub fn shuffle(mut self) -> Self {
-        let mut rng = StdRng::seed_from_u64(self.seed);
-        self.ix.shuffle(&mut rng);
+        self.shuffle = true;
         self
     }
 
@@ -158,6 +159,13 @@ impl Iterator for CrossValidation<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_fold >= self.n_folds { return None; }
 
+        // The seed may have been set after the call of `shuffle`.
+        if self.shuffle {
+            let mut rng = StdRng::seed_from_u64(self.seed);
+            self.ix.shuffle(&mut rng);
+            self.shuffle = false;
+        }
+
         let output = self.fold_at(self.current_fold);
         self.current_fold += 1;
 
-- 
2.43.0


From 3f0e665d043dde0b559c5cabb45c97670905de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 51/57] fix: ERLPBoost keeps the best distribution when the QP
 solver breaks down

---
 src/booster/erlpboost/qp_model.rs | 40 ++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index 9b64b7b..ae9e04f 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -14,6 +14,7 @@ use std::iter;
 
 const EPS: f64 = 1e-100;
 const MOVEMENT_TOLERANCE: f64 = 1e-6;
+const OBJECTIVE_TOLERANCE: f64 = 1e-9;
 const MAX_SQP_ITER: usize = 100;
 const FEASIBILITY_TOLERANCE: f64 = 1e-6;
 
@@ -136,6 +137,9 @@ impl QPModel {
             .for_each(|di| {
                 *di = 1f64 / self.n_examples as f64;
             });
+        // The latest distribution whose objective value is not worse than
+        // the ones of the previous distributions.
+        let mut best = (self.objective_value(), self.dist.clone());
         for _ in 0..MAX_SQP_ITER {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
@@ -159,23 +163,47 @@ impl QPModel {
                 SolverStatus::Solved | SolverStatus::AlmostSolved => true,
                 _ => false,
             };
-            if solved || self.weights.len() < self.n_hypotheses {
-                let start = 1 + 2 * self.n_examples;
-                self.weights = solution.z[start..].into_iter()
-                    .map(|wi| wi.max(0f64))
-                    .collect();
+            let start = 1 + 2 * self.n_examples;
+            let weights = solution.z[start..].iter()
+                .map(|wi| wi.max(0f64))
+                .collect::<Vec<_>>();
+            if self.weights.len() < self.n_hypotheses {
+                self.weights = weights.clone();
             }
             // The solution does not satisfy the constraints.
             if !solved && !(solution.r_prim < FEASIBILITY_TOLERANCE) { break; }
             let movement = utils::move_inside_positive_orthant(
-                &mut self.dist[..], &solver.solution.x[1..]
+                &mut self.dist[..], &solution.x[1..]
             );
+            let objval = self.objective_value();
+            if objval <= best.0 + OBJECTIVE_TOLERANCE {
+                best = (objval, self.dist.clone());
+                if solved { self.weights = weights; }
+            }
             if movement < MOVEMENT_TOLERANCE { break; }
         }
+        self.dist = best.1;
         utils::normalize(&mut self.dist[..]);
     }
 
 
+    /// Returns the objective value at the normalized `self.dist`:
+    /// `max_j Σ_i d_i y_i h_j (x_i) + (1/η) Σ_i d_i ln( d_i ).`
+    fn objective_value(&self) -> f64 {
+        let mut dist = self.dist.clone();
+        utils::normalize(&mut dist[..]);
+        let max_edge = (0..self.n_hypotheses)
+            .map(|j|
+                self.margins.iter()
+                    .zip(&dist)
+                    .map(|(margins, di)| di * margins[j])
+                    .sum::<f64>()
+            )
+            .fold(f64::MIN, f64::max);
+        max_edge + utils::entropy(&dist) / self.eta
+    }
+
+
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
         let mut linear = Vec::with_capacity(1 + self.n_examples);
         linear.push(1f64);
-- 
2.43.0


From dcbe6b52469527a04059dd016351d17f7d2131e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 52/57] fix: SoftBoost and TotalBoost survive break-downs of
 the QP solver

---
 src/booster/softboost/qp_model.rs | 47 ++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 6a2823e..a855bf5 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,7 +13,9 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const MOVEMENT_TOLERANCE: f64 = 1e-6;
+const ENTROPY_TOLERANCE: f64 = 1e-9;
 const MAX_SQP_ITER: usize = 100;
+const MAX_RESTARTS: usize = 3;
 const FEASIBILITY_TOLERANCE: f64 = 1e-6;
 
 /// A quadratic programming model for edge minimization. 
@@ -123,6 +125,10 @@ impl QPModel {
         let rhs = self.build_rhs(ghat);
 
 
+        // The latest solution whose entropy is not worse than
+        // the ones of the previous solutions.
+        let mut best: Option<(f64, Vec<f64>)> = None;
+        let mut n_restarts = 0usize;
         for _ in 0..MAX_SQP_ITER {
             let settings = DefaultSettingsBuilder::default()
                 .equilibrate_enable(true)
@@ -141,22 +147,55 @@ impl QPModel {
             );
 
             solver.solve();
-            // Numerical errors do not matter if the solution is accurate.
             let solution = &solver.solution;
             let solved = match solution.status {
                 SolverStatus::Solved | SolverStatus::AlmostSolved => true,
+                _ => false,
+            };
+            // Numerical errors do not matter if the solution is accurate.
+            let broke_down = match solution.status {
                 SolverStatus::InsufficientProgress | SolverStatus::MaxIterations
-                    => solution.r_prim < FEASIBILITY_TOLERANCE,
+                    => true,
                 _ => false,
             };
-            // There is no distribution that satisfies the constraints.
-            if !solved { return None; }
+            let feasible = solved
+                || (broke_down && solution.r_prim < FEASIBILITY_TOLERANCE);
+            if feasible {
+                let solution = solution.x.iter()
+                    .map(|xi| xi.max(0f64))
+                    .collect::<Vec<_>>();
+                let entropy = utils::entropy(&solution);
+                if !best.as_ref().is_some_and(|(e, _)| entropy > e + ENTROPY_TOLERANCE) {
+                    best = Some((entropy, solution));
+                }
+            }
+
+            // If the solver broke down,
+            // retry from a point away from the boundary of the simplex.
+            if !solved && n_restarts < MAX_RESTARTS
+                && (broke_down || best.is_some())
+            {
+                n_restarts += 1;
+                let uniform = 1f64 / self.n_examples as f64;
+                if let Some((_, solution)) = &best {
+                    dist.copy_from_slice(&solution[..]);
+                }
+                dist.iter_mut()
+                    .for_each(|di| { *di = (*di + uniform) / 2f64; });
+                continue;
+            }
+            if !feasible { break; }
 
             let movement = utils::move_inside_positive_orthant(
                 dist, &solver.solution.x[..]
             );
             if movement < MOVEMENT_TOLERANCE { break; }
         }
+        // If no solution is found,
+        // there is no distribution that satisfies the constraints.
+        let (_, solution) = best?;
+        dist.fill(0f64);
+        utils::move_inside_positive_orthant(dist, &solution[..]);
         utils::normalize(dist);
         Some(())
     }
-- 
2.43.0


From 07b96c67b2a51ef16bfa6e75c486989b4d071c90 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 05:10:23 +0000
Subject: [PATCH 53/57] fix: SoftBoost and ERLPBoost check a broken-down QP
 solution against the constraints

---
 src/booster/erlpboost/qp_model.rs | 16 +++++++++++++++-
 src/booster/softboost/qp_model.rs | 26 +++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/booster/erlpboost/qp_model.rs b/src/booster/erlpboost/qp_model.rs
index ae9e04f..4a5b8f6 100644
--- a/src/booster/erlpboost/qp_model.rs
+++ b/src/booster/erlpboost/qp_model.rs
@@ -171,7 +171,7 @@ impl QPModel {
                 self.weights = weights.clone();
             }
             // The solution does not satisfy the constraints.
-            if !solved && !(solution.r_prim < FEASIBILITY_TOLERANCE) { break; }
+            if !solved && !self.is_feasible(&solution.x[1..]) { break; }
             let movement = utils::move_inside_positive_orthant(
                 &mut self.dist[..], &solution.x[1..]
             );
@@ -187,6 +187,20 @@ impl QPModel {
     }
 
 
+    /// Returns `true` if `dist` is in the capped simplex.
+    /// The residual that the solver reports is not used
+    /// since it is relative to the size of the slack variables.
+    fn is_feasible(&self, dist: &[f64]) -> bool {
+        let sum = dist.iter().sum::<f64>();
+        (sum - 1f64).abs() <= FEASIBILITY_TOLERANCE
+            && dist.iter()
+                .all(|&di| {
+                    -FEASIBILITY_TOLERANCE <= di
+                    && di <= self.cap_inv + FEASIBILITY_TOLERANCE
+                })
+    }
+
+
     /// Returns the objective value at the normalized `self.dist`:
     /// `max_j Σ_i d_i y_i h_j (x_i) + (1/η) Σ_i d_i ln( d_i ).`
     fn objective_value(&self) -> f64 {
diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index a855bf5..f25b5f3 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -159,7 +159,7 @@ impl QPModel {
                 _ => false,
             };
             let feasible = solved
-                || (broke_down && solution.r_prim < FEASIBILITY_TOLERANCE);
+                || (broke_down && self.is_feasible(&solution.x[..], ghat));
             if feasible {
                 let solution = solution.x.iter()
                     .map(|xi| xi.max(0f64))
@@ -201,6 +201,30 @@ impl QPModel {
     }
 
 
+    /// Returns `true` if `x` satisfies the constraints.
+    /// The residual that the solver reports is not used
+    /// since it is relative to the size of the slack variables.
+    fn is_feasible(&self, x: &[f64], ghat: f64) -> bool {
+        let sum = x.iter().sum::<f64>();
+        let inside = x.iter()
+            .all(|&xi| {
+                -FEASIBILITY_TOLERANCE <= xi
+                && xi <= self.cap_inv + FEASIBILITY_TOLERANCE
+            });
+        let max_edge = (0..self.n_hypotheses)
+            .map(|j|
+                self.margins.iter()
+                    .zip(x)
+                    .map(|(margins, xi)| xi * margins[j])
+                    .sum::<f64>()
+            )
+            .fold(f64::MIN, f64::max);
+        (sum - 1f64).abs() <= FEASIBILITY_TOLERANCE
+            && inside
+            && max_edge <= ghat + FEASIBILITY_TOLERANCE
+    }
+
+
     pub(self) fn build_linear_part_objective(&self, dist: &[f64]) -> Vec<f64> {
         let mut linear = Vec::with_capacity(self.n_examples);
         let iter = dist.iter()
-- 
2.43.0


From 1b6628f95177fc2ff796e1ad71c48ebf037651a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:29 +0000
Subject: [PATCH 54/57] fix: cross validation keeps features that share their
 name

---
 src/sample/sample_struct.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 5a80534..244ef27 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -565,8 +565,9 @@ impl Sample {
             target: Vec::with_capacity(test_size),
         };
 
-        for (name, &i) in self.name_to_index.iter() {
-            if self.features[i].is_sparse() {
+        for (i, feat) in self.features.iter().enumerate() {
+            let name = feat.name();
+            if feat.is_sparse() {
                 train.features[i] = Feature::new_sparse(name.to_string());
                 test.features[i] = Feature::new_sparse(name.to_string());
                 train.features[i].set_n_sample(train_size);
-- 
2.43.0


From 8d115cf7ce4072a6ee67857edd84249ecd0727c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:29 +0000
Subject: [PATCH 55/57] fix: refuse SVMLight pairs followed by a third part

---
 src/sample/sample_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 244ef27..26060c2 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -597,7 +597,7 @@ impl Sample {
 /// Parse the following type of `str` to the pair of `(usize, f64)`.
 /// `index:value`, where `index: usize` and `value: f64`.
 fn index_and_feature(word: &str) -> (usize, f64) {
-    let mut i_x = word.split(':');
+    let mut i_x = word.splitn(2, ':');
     let i = i_x.next()
         .unwrap()
         .trim()
-- 
2.43.0


From d2f1727a1d102b1cf0ac41af7bd2af665e65d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:00 +0000
Subject: [PATCH 56/57] hooks: record the training steps of a neural network

---
 .../neural_network/nn_hypothesis.rs           | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 942b33c..b9d030c 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -141,6 +141,8 @@ impl NNHypothesis {
     )
     {
         let indices = indices.as_ref();
+        #[cfg(vp_hooks)]
+        self.vp_record(learning_rate, indices);
         let batch_size = indices.len();
         let n_layers = self.layers.len();
         // Keep sub-gradients for all layers.
@@ -254,9 +256,43 @@ impl Regressor for NNRegressor {
 }
 
 
+/// A recorded training step:
+/// the learning rate, the minibatch, and the parameters before the step.
+#[cfg(vp_hooks)]
+pub type VpStep = (f64, Vec<usize>, Vec<(Vec<Vec<f64>>, Vec<f64>)>);
+
+
+#[cfg(vp_hooks)]
+thread_local! {
+    static VP_STEPS: std::cell::RefCell<Option<Vec<VpStep>>>
+        = const { std::cell::RefCell::new(None) };
+}
+
+
 /// Access for the runtime monitors to the parameters and to a training step.
 #[cfg(vp_hooks)]
 impl NNHypothesis {
+    /// Start to record the training steps of this thread.
+    pub fn vp_record_steps() {
+        VP_STEPS.with(|steps| *steps.borrow_mut() = Some(Vec::new()));
+    }
+
+
+    /// Stop recording and return the training steps.
+    pub fn vp_take_steps() -> Vec<VpStep> {
+        VP_STEPS.with(|steps| steps.borrow_mut().take().unwrap_or_default())
+    }
+
+
+    fn vp_record(&self, rate: f64, indices: &[usize]) {
+        VP_STEPS.with(|steps| {
+            if let Some(steps) = steps.borrow_mut().as_mut() {
+                steps.push((rate, indices.to_vec(), self.vp_params()));
+            }
+        });
+    }
+
+
     /// `n_class` is `0` for regression, `2` for binary classification.
     pub fn vp_new(n_class: usize, dims: &[usize], acts: &[Activation]) -> Self {
         let task = match n_class {
-- 
2.43.0


From 67c48326265c7ddeb7db203ac6b4799176f4e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:46 +0000
Subject: [PATCH 57/57] fix: AdaBoost rounds its iteration bound up, never to
 zero

---
 src/booster/adaboost/adaboost_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 4cb0dbd..5d47ade 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -156,7 +156,7 @@ impl<'a, F> AdaBoost<'a, F> {
     pub fn max_loop(&self) -> usize {
         let n_sample = self.sample.shape().0 as f64;
 
-        (n_sample.ln() / self.tolerance.powi(2)) as usize
+        (n_sample.ln() / self.tolerance.powi(2)).ceil() as usize
     }
 
 
-- 
2.43.0

