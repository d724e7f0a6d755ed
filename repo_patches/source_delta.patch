From 70e868baeb591adccd34098ecf71d6b81f362f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 01/13] Guarded hook (cfg verif_hooks): re-export crate-private
 types for solver-based checks

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index ef6580c..04c1aa6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,3 +233,11 @@ pub use {
 
 // re-export common structs from ndarray
 pub use ndarray::{Array1, Array2, ArrayView1, ArrayView2, array};
+
+/// Access to private traits for the external verification harness; never part of a normal build.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::glm::{DispersionType, Glm};
+    pub use crate::response::Yval;
+}
-- 
2.43.0


From 3b37ced00d6b4b40d940ebc605c64adb84d4ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 02/13] fix: keep the ADMM augmentation out of the reported
 information matrix

The Fisher information, and the covariance, leverage and influence derived from it,
included the internal ADMM parameter rho on every diagonal (the intercept too) under
L1 and elastic-net penalties, so they depended on the solver's state.
---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..c2bce8d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -330,7 +330,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().information(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..906219b 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Defines the regularization effect on the information matrix: the negative Hessian of the
+    /// penalty itself, without any augmentation that only serves the IRLS iteration.
+    fn information(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 norm has no curvature.
+    fn information(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 part has curvature.
+    fn information(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From f03afbcc9ce32f742c66897255a9b42d3e1d6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 03/13] fix: exclude the penalty from R-squared

---
 src/fit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index c2bce8d..ac0a2f6 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -971,8 +971,10 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
-        lr / (lr + self.deviance())
+        // D_0 - D is twice the unregularized likelihood gain; `model_like` carries the penalty.
+        let like = <Linear as Glm>::log_like(self.data, &self.result_std);
+        let dev_gain = F::two() * (like - self.null_like());
+        dev_gain / (dev_gain + self.deviance())
     }
 
     /// Returns the weighted residual sum of squares (RSS):
-- 
2.43.0


From 0c865684f8dd79e9e5641d27e1e3f5498b2c3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 04/13] fix: report the history of a failed fit in the user's
 coordinates

---
 src/glm.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..401ef12 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -6,7 +6,7 @@ use crate::irls::IrlsStep;
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -178,6 +178,20 @@ pub trait Glm: Sized {
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        // A failed fit reports its history in the external coordinates, as a successful one does.
+        .map_err(|err| match err {
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|IrlsStep { guess, like }| IrlsStep {
+                        guess: model.data.inverse_transform_beta(guess),
+                        like,
+                    })
+                    .collect(),
+            },
+            other => other,
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
-- 
2.43.0


From 5a2e0b889d986dde8b5ec6068435c101fd77bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 05/13] fix: reject binomial responses larger than N

---
 src/response/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..a00659b 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From 91eb9065a0b60c6260d76f6b8f09696a36179468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 06/13] fix: reject NaN responses for positive families

---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..0270916 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..9446f2e 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..11d6688 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
-- 
2.43.0


From 84aa5710d9fd97fd04f28c70568887e49300dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:50 +0000
Subject: [PATCH 07/13] fix: reject weights whose length differs from the
 number of responses

---
 src/model.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..dd2e4be 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -203,6 +203,23 @@ where
             ));
         }
 
+        // The weights, if provided, must have one entry per observation too. Otherwise they could
+        // be silently broadcast.
+        if let Some(weights) = &self.var_weights
+            && n_data != weights.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Variance weights must have same dimension as observations".to_string(),
+            ));
+        }
+        if let Some(freqs) = &self.freq_weights
+            && n_data != freqs.len()
+        {
+            return Err(RegressionError::BadInput(
+                "Frequency weights must have same dimension as observations".to_string(),
+            ));
+        }
+
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
             // The regression can find a solution if n_data == ncols, but there will be
-- 
2.43.0


From b8ad3b2c488ba6a1aec373b5cd3588f1d793114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:35 +0000
Subject: [PATCH 08/13] fix: keep the cloglog likelihood from becoming NaN when
 the natural parameter saturates

---
 src/response/logistic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..fcbd18d 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -101,7 +101,10 @@ where
         } else {
             (F::one() - y, -logit_p)
         };
-        yt * xt - num_traits::Float::exp(xt).ln_1p()
+        // Non-canonical links can saturate the natural parameter at infinity, which contributes
+        // nothing to an observation that agrees with it exactly.
+        let lin = if yt == F::zero() { yt } else { yt * xt };
+        lin - num_traits::Float::exp(xt).ln_1p()
     }
 
     /// The saturated log-likelihood is zero for logistic regression when y = 0 or 1 but is less
@@ -145,7 +148,11 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            // ln(exp(t) - 1) = t + ln(1 - exp(-t)) does not overflow for large t = exp(x)
+            lin_pred.mapv(|x| {
+                let t = num_traits::Float::exp(x);
+                t + num_traits::Float::ln(-F::exp_m1(-t))
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-- 
2.43.0


From 8229141f8f4c23fce82463e1bb659615596877a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:27 +0000
Subject: [PATCH 09/13] fix: report a failed null-model fit as an error of the
 score test

---
 src/fit.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index ac0a2f6..5df4ef8 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -554,16 +554,16 @@ where
     /// to zero except the intercept (if it is used). A total of `test_ndf()`
     /// parameters are constrained.
     pub fn null_like(&self) -> F {
-        let (null_like, _) = self.null_model_fit();
+        let (null_like, _) = self.null_model_fit().expect("Could not fit null model!");
         *null_like
     }
 
     /// Return the likelihood and null model parameters, which will be zero with the possible
     /// exception of the intercept term. Since this can require an additional regression, the
     /// values are cached.
-    fn null_model_fit(&self) -> &(F, Array1<F>) {
+    fn null_model_fit(&self) -> RegressionResult<&(F, Array1<F>), F> {
         self.null_model
-            .get_or_init(|| match &self.data.linear_offset {
+            .get_or_try_init(|| match &self.data.linear_offset {
                 None => {
                     // If there is no linear offset, the natural parameter is
                     // identical for all observations so it is sufficient to
@@ -597,7 +597,7 @@ where
                         par[0] = intercept;
                         par
                     };
-                    (null_like_total, null_params)
+                    Ok((null_like_total, null_params))
                 }
                 Some(off) => {
                     if self.data.has_intercept {
@@ -622,8 +622,6 @@ where
                                 standardizer: None,
                             },
                         };
-                        // TODO: Make this function return an error, although it's
-                        // difficult to imagine this case happening.
                         // TODO: Should the tolerance of this fit be stricter?
                         // The intercept should not be regularized
                         let null_fit = null_model
@@ -632,8 +630,7 @@ where
                             // single-parameter fit, but there shouldn't be harm in
                             // using the same maximum as in the original model.
                             .max_iter(self.options.max_iter)
-                            .fit()
-                            .expect("Could not fit null model!");
+                            .fit()?;
                         let null_params: Array1<F> = {
                             let mut par = Array1::<F>::zeros(self.n_par);
                             // there is only one parameter in this fit. It should be the same as
@@ -641,7 +638,7 @@ where
                             par[0] = null_fit.result_std[0];
                             par
                         };
-                        (null_fit.model_like, null_params)
+                        Ok((null_fit.model_like, null_params))
                     } else {
                         // If the intercept is fixed to zero, then no minimization is
                         // required. The natural parameters are directly known in terms
@@ -653,7 +650,7 @@ where
                             .map_collect(|&y, &eta| M::log_like_natural(y, eta));
                         let null_like = self.data.weighted_sum(&null_like_terms);
                         let null_params = Array1::<F>::zeros(self.n_par);
-                        (null_like, null_params)
+                        Ok((null_like, null_params))
                     }
                 }
             })
@@ -879,7 +876,7 @@ where
     /// evaluated at the null parameters. Asymptotically $`\chi^2`$-distributed with
     /// [`test_ndf()`](Self::test_ndf) degrees of freedom.
     pub fn score_test(&self) -> RegressionResult<F, F> {
-        let (_, null_params) = self.null_model_fit();
+        let (_, null_params) = self.null_model_fit()?;
         // NOTE: The null model is not sensitive to standardization.
         self.score_test_against(null_params.clone())
     }
@@ -919,7 +916,7 @@ where
     pub fn wald_test(&self) -> F {
         // The null parameters are all zero except for a possible intercept term
         // which optimizes the null model.
-        let (_, null_params) = self.null_model_fit();
+        let (_, null_params) = self.null_model_fit().expect("Could not fit null model!");
         // NOTE: The null model is agnostic to standardization, since it discards all features
         // except perhaps the intercept.
         self.wald_test_against(null_params)
-- 
2.43.0


From f39ae6d170dbc0d3626084725ced4649a23f086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:54 +0000
Subject: [PATCH 10/13] Guarded hook (cfg verif_hooks_reg): access to the L1
 solver state for solver-based checks

---
 src/lib.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04c1aa6..b88a2b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -241,3 +241,47 @@ pub mod verif_hooks {
     pub use crate::glm::{DispersionType, Glm};
     pub use crate::response::Yval;
 }
+
+/// Access to the solver's regularisation state for the external verification harness; never part
+/// of a normal build.
+#[cfg(verif_hooks_reg)]
+#[doc(hidden)]
+pub mod verif_hooks_reg {
+    use crate::{fit::options::FitOptions, glm::Glm, irls::Irls, model::Model, num::Float};
+    use crate::{Array1, Array2, error::RegressionResult, regularization::IrlsReg};
+    use ndarray::ArrayRef2;
+    use ndarray_linalg::SolveH;
+    /// The regulariser a fit would use, in its initial state.
+    pub struct Reg<F: Float>(Box<dyn IrlsReg<F>>);
+    impl<F: Float> Reg<F>
+    where
+        ArrayRef2<F>: SolveH<F>,
+    {
+        pub fn of<M: Glm>(m: &Model<M, F>, b: Array1<F>, o: FitOptions<F>) -> Self {
+            Reg(Irls::new(m, b, o).reg)
+        }
+        pub fn prepare(&mut self, b: &Array1<F>) {
+            self.0.prepare(b)
+        }
+        pub fn irls_vec(&self, v: Array1<F>, b: &Array1<F>) -> Array1<F> {
+            self.0.irls_vec(v, b)
+        }
+        pub fn irls_mat(&self, m: Array2<F>, b: &Array1<F>) -> Array2<F> {
+            self.0.irls_mat(m, b)
+        }
+        pub fn irls_like(&self, b: &Array1<F>) -> F {
+            self.0.irls_like(b)
+        }
+        pub fn next_guess(
+            &mut self,
+            b: &Array1<F>,
+            v: Array1<F>,
+            m: Array2<F>,
+        ) -> RegressionResult<Array1<F>, F> {
+            self.0.next_guess(b, v, m)
+        }
+        pub fn terminate_ok(&self, tol: F) -> bool {
+            self.0.terminate_ok(tol)
+        }
+    }
+}
-- 
2.43.0


From e124d99809338dbe3f585ecb1a561f3a9fbaea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:17 +0000
Subject: [PATCH 11/13] fix: leave rows out of the exact leave-one-out refits
 instead of zeroing their frequency

A zero-frequency row still entered the likelihood as 0 * NaN once the
refitted coefficients put its linear predictor outside the domain (e.g.
canonical exponential and gamma), and the refit returned its start.
---
 src/fit.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 5df4ef8..6b9207f 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -416,18 +416,17 @@ where
         for i in 0..n_obs {
             let data_i: Dataset<F> = {
                 // Get the proper X data matrix as it existed before standardization and
-                // intercept-padding.
-                let x_i = self.data.x_orig();
-                // Leave the observation out by setting the frequency weight to zero.
-                let mut freqs_i: Array1<F> =
-                    self.data.freqs.clone().unwrap_or(Array1::<F>::ones(n_obs));
-                freqs_i[i] = F::zero();
+                // intercept-padding, without the observation (and all of its copies). The row is
+                // removed rather than given zero frequency, because its linear predictor may well
+                // leave the domain of the likelihood when it is not part of the fit.
+                let keep: Vec<usize> = (0..n_obs).filter(|&j| j != i).collect();
+                let without = |v: &Array1<F>| v.select(Axis(0), &keep);
                 let mut data_i = Dataset {
-                    y: self.data.y.clone(),
-                    x: x_i,
-                    linear_offset: self.data.linear_offset.clone(),
-                    weights: self.data.weights.clone(),
-                    freqs: Some(freqs_i),
+                    y: without(&self.data.y),
+                    x: self.data.x_orig().select(Axis(0), &keep),
+                    linear_offset: self.data.linear_offset.as_ref().map(without),
+                    weights: self.data.weights.as_ref().map(without),
+                    freqs: self.data.freqs.as_ref().map(without),
                     // These fields must be set this way, as they are in the ModelBuilder, before
                     // finalize_design_matrix() is called.
                     has_intercept: false,
-- 
2.43.0


From f20a104beffa69ed9534fdfe0c0eef8084fb18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 12/13] fix: keep the rest of the specification when dropping a
 coefficient for exact p-values

The reduced model of a fit without intercept was marked as having one, so
its first column escaped the penalty; and without the intercept the other
columns of a standardized fit were penalized on the unstandardized scale.
---
 src/fit.rs | 49 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 6b9207f..944fb7c 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1000,49 +1000,46 @@ where
         use ndarray::{concatenate, s};
 
         let is_intercept = self.data.has_intercept && (i == 0);
+        // Work with the design matrix as it was given, and let the reduced data set be
+        // standardized again if the full one was: each remaining column is standardized as before,
+        // and dropping the intercept drops the external one, without mixing it with the others.
+        let x_orig = self.data.x_orig();
         let x_reduced: Array2<F> = if is_intercept {
-            // If this is the intercept term, we need to use the original unscaled data to avoid
-            // mixing
-            self.data.x_ext().slice(s![.., 1..]).to_owned()
+            x_orig
         } else {
+            let col = if self.data.has_intercept { i - 1 } else { i };
             concatenate![
                 Axis(1),
-                self.data.x.slice(s![.., ..i]),
-                self.data.x.slice(s![.., i + 1..])
+                x_orig.slice(s![.., ..col]),
+                x_orig.slice(s![.., col + 1..])
             ]
         };
-        // NOTE: This data has been standardized already. Since we are fully dropping a covariate,
-        // each data column should still be standardized if the full external set is.
-        let data_reduced = Dataset::<F> {
+        let mut data_reduced = Dataset::<F> {
             y: self.data.y.clone(),
             x: x_reduced,
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
-            // It shouldn't be necessary to standardize again. Each individual column should
-            // already be standardized, if the full dataset was.
+            // These fields must be set this way, as they are in the ModelBuilder, before
+            // finalize_design_matrix() is called.
+            has_intercept: false,
             standardizer: None,
         };
+        data_reduced.finalize_design_matrix(
+            self.data.standardizer.is_some(),
+            self.data.has_intercept && !is_intercept,
+        );
         let model_reduced = Model {
             model: PhantomData::<M>,
             data: data_reduced,
         };
-        // Start with the non-excluded parameters at the values from the main fit.
-        let init_guess = if is_intercept {
-            // For the intercept term, we need to use the original unscaled data, or else the
-            // transformation mixes the intercept with the other terms. This number is supposed to
-            // represent the model deviance from excluding the *external* intercept term.
-            self.result.slice(s![1..]).to_owned()
-        } else {
-            // The data is already standardized in the non-intercept case, so we should start the
-            // the standardized parameters, removing the covariate of interest.
-            concatenate![
-                Axis(0),
-                self.result_std.slice(s![..i]),
-                self.result_std.slice(s![i + 1..])
-            ]
-        };
+        // Start with the non-excluded parameters at the values from the main fit, on the external
+        // scale.
+        let init_guess = concatenate![
+            Axis(0),
+            self.result.slice(s![..i]),
+            self.result.slice(s![i + 1..])
+        ];
         let fit_options = {
             let mut fit_options = self.options.clone();
             fit_options.init_guess = Some(init_guess);
-- 
2.43.0


From 8e0b263d616621736b598414130e71cfd3f47b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 13/13] fix: models without coefficients have nothing to fit

The empty linear system made LAPACK fail, so the exact p-values of
single-coefficient models (and fits without any coefficient) were errors.
---
 src/fit.rs  | 5 ++++-
 src/irls.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 944fb7c..1c0c7f8 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -593,7 +593,10 @@ where
                     let null_like_total = self.data.sum_weights() * null_like_one;
                     let null_params: Array1<F> = {
                         let mut par = Array1::<F>::zeros(self.n_par);
-                        par[0] = intercept;
+                        // There may be no parameters at all.
+                        if let Some(first) = par.first_mut() {
+                            *first = intercept;
+                        }
                         par
                     };
                     Ok((null_like_total, null_params))
diff --git a/src/irls.rs b/src/irls.rs
index e036633..6abd7aa 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -191,6 +191,10 @@ where
         if self.done {
             return None;
         }
+        // Without any coefficients there is nothing to fit, and no linear system to solve.
+        if self.guess.is_empty() {
+            return None;
+        }
 
         let (irls_mat, irls_vec) = self.irls_mat_vec();
         let next_guess: Array1<F> = match self.reg.next_guess(&self.guess, irls_vec, irls_mat) {
-- 
2.43.0

