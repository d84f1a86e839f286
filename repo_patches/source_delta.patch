From 7b3e0f7791cdec1321c801d82737a6c6179a74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 01/36] fix: do not drop requested times when solving near the
 start of the sample

solve(times=...) prepends window - 1 earlier times; when fewer are available
the slice start went negative, the slice was empty and requested times that do
have a full window were silently skipped.
---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..23329c4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From 99969f2650092bdfeb2d99a9a50c276789ab7085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 02/36] fix: report a solve stopped at a solver limit as not
 converged

With e.g. max_iter reached cvxpy does not raise but returns status user_limit;
the unconverged iterate (weights not summing to one) was yielded as a result.
---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 23329c4..6b1afd2 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -271,6 +271,10 @@ class _CovarianceCombination:
         """
         problem.solve(**kwargs)
 
+        # e.g. iteration or time limit reached: the variables do not hold a solution
+        if problem.status not in (cvx.OPTIMAL, cvx.OPTIMAL_INACCURATE):
+            raise cvx.SolverError(f"Solver stopped with status {problem.status}")
+
         weights = problem.weights
 
         # Get non-shifted L
-- 
2.43.0


From cff535b7c4e9810e64b3192148b61b5ad152ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/36] fix: combine experts whose weighting problem is
 singular

Identical or nearly collinear experts, or fewer observations in the window than
experts, make the quadratic form only positive semidefinite; np.linalg.cholesky
then raised LinAlgError and ended the stream of predictions.
---
 cvx/covariance/combination.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 6b1afd2..26ab645 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -57,6 +57,17 @@ def _A(diags_interval, K):
     return np.column_stack([np.vstack(diags_interval.iloc[:, i]).flatten() for i in range(K)])
 
 
+def _factor(P):
+    """
+    Computes a matrix F with F @ F.T = P; P may be singular, e.g. for identical experts
+    """
+    try:
+        return np.linalg.cholesky(P)
+    except np.linalg.LinAlgError:
+        eigenvalues, Q = np.linalg.eigh(P)
+        return Q * np.sqrt(np.maximum(eigenvalues, 0.0))
+
+
 def _nu(Ls, means):
     """
     Computes L.T @ mu for each L factor in Ls and corresponding
@@ -241,7 +252,7 @@ class _CovarianceCombination:
         # times = prod_Bs.index
         P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}
 
-        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}
+        P_chol = {time: _factor(matrix) for time, matrix in P.items()}
 
         # Compute A matrix
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
-- 
2.43.0


From 11f19c99581b4bb08d3d314fc23a9a0b9cf6a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 04/36] fix: accept experts whose predictions start or end at
 different times

The frame of factors then holds NaN and the constructor failed with
AttributeError: 'float' object has no attribute 'T'.
---
 cvx/covariance/combination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 26ab645..987cd18 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -180,7 +180,8 @@ class _CovarianceCombination:
         self.__returns = returns
 
         # all those quantities don't depend on the window size
-        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()})
+        # experts are combined at the times they all have a prediction for
+        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()}).dropna()
         self.__Ls_shifted = self.__Ls.shift(1).dropna()
         self.__nus = pd.DataFrame({key: _nu(Ls, self.means[key]) for key, Ls in self.__Ls.items()})
         self.__nus_shifted = self.__nus.shift(1).dropna()
-- 
2.43.0


From 54fbcd5d6a56be9ed7dc29860deb105871139e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 05/36] fix: combine predictions indexed by periods

DataFrame.truncate rejects Period labels (monthly returns, say), so solve()
raised TypeError; label slicing selects the same rows for every index type.
---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 987cd18..f808a5b 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -259,7 +259,7 @@ class _CovarianceCombination:
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
 
         A = {
-            times[i]: _A(Ls_diag.truncate(before=times[i - window + 1], after=times[i]), self.K)
+            times[i]: _A(Ls_diag.loc[times[i - window + 1] : times[i]], self.K)
             for i in range(window - 1, len(times))
         }
 
-- 
2.43.0


From 47b9961f5e0d8af236b51613fdc605a5b3f58cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 06/36] fix: do not clip against a volatility of zero

An asset without a nonzero return before clipping starts (listed later, NaNs
replaced by zero) had every later squared return clipped to zero, so its
volatility stayed at zero for good.
---
 cvx/covariance/ewma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..88201b3 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -256,9 +256,9 @@ def _general(
 
         # update the moving average
         if clip_at and n >= min_periods + 1:
-            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -clip_at * _ewma, clip_at * _ewma) - _ewma) / (
-                1 - np.power(beta, n + 1)
-            )
+            # an average of exactly zero (nothing observed yet) gives no scale to clip at
+            clipped = np.where(_ewma == 0, next_val, np.clip(next_val, -clip_at * _ewma, clip_at * _ewma))
+            _ewma = _ewma + (1 - beta) * (clipped - _ewma) / (1 - np.power(beta, n + 1))
         else:
             _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))
 
-- 
2.43.0


From b2af8c3524c4582fdac6e7c0ef2b9124a6758d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 07/36] fix: give every return in the rolling window the same
 weight

The weights were off by one: row t holds t + 1 returns, not t + 2. The first
return counted twice and never left the window.
---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 10e5ddd7d82ac5a736ecc6447125ddf61b71a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 08/36] fix: return the log-likelihoods from
 log_likelihood_sequential

The function computed them and returned None.
---
 experiments/utils/experiment_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index ad79da9..b1fd424 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -241,7 +241,9 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
             -n / 2 * np.log(2 * np.pi)
             - 1 / 2 * np.log(det)
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
-        )
+        ).item()
+
+    return ll
 
 
 def rolling_window(returns, memory, min_periods=20):
-- 
2.43.0


From 3a7246816894f29a2b0a77bff3497c6837972f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 09/36] fix: finite log-likelihoods for large universes

The determinant of the covariance of, say, 100 daily returns underflows to zero
and the log-likelihood became infinite; use slogdet.
---
 experiments/utils/experiment_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index b1fd424..3a66fcc 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -89,10 +89,10 @@ def turnover(weights):
 def _single_log_likelihood(r, Sigma, m):
     n = len(r)
     Sigma_inv = np.linalg.inv(Sigma)
-    det = np.linalg.det(Sigma)
+    logdet = np.linalg.slogdet(Sigma)[1]
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(det)
+        - 1 / 2 * logdet
         - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
     )
 
@@ -198,12 +198,12 @@ def log_likelihood(returns, Sigmas, means=None, scale=1):
     means = means * scale
     Sigmas = Sigmas * scale**2
 
-    dets = np.linalg.det(Sigmas).reshape(len(Sigmas), 1, 1)
+    logdets = np.linalg.slogdet(Sigmas)[1].reshape(len(Sigmas), 1, 1)
     Sigma_invs = np.linalg.inv(Sigmas)
 
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(dets)
+        - 1 / 2 * logdets
         - 1
         / 2
         * np.transpose(returns - means, axes=(0, 2, 1))
@@ -234,12 +234,12 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         r = returns[t].reshape(n, 1)
         m = means[t].reshape(n, 1)
         Sigma = Sigmas[t]
-        det = np.linalg.det(Sigma)
+        logdet = np.linalg.slogdet(Sigma)[1]
         Sigma_inv = np.linalg.inv(Sigma)
 
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
-            - 1 / 2 * np.log(det)
+            - 1 / 2 * logdet
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         ).item()
 
-- 
2.43.0


From 9261a2fb4458e595f3855bca07d595b0b2c33fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 10/36] fix: log-likelihoods for assets with integer labels

isna()[0] looks up the label 0, which fails for e.g. PERMNO columns.
---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 3a66fcc..1c5e0a2 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -120,7 +120,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -153,7 +153,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -164,7 +164,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From 8e21ec3c9b6587cbebe12d74ca6b1884d5eb75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 11/36] fix: use the half-life of the prediction scales as a
 half-life

The first positional argument of ewm is the center of mass.
---
 experiments/utils/return_combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index 96cf3b3..f8a63a4 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -170,7 +170,7 @@ class ReturnCombinator:
         ]
 
         variances = [
-            squared_prediction.ewm(halflife).mean().shift(1)
+            squared_prediction.ewm(halflife=halflife).mean().shift(1)
             for squared_prediction in squared_returns_predictions
         ]
 
-- 
2.43.0


From 7c2024ead660c66ad1333f3dba6d66ed8eacbdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/36] fix: keep the constraints of one backtest out of the
 next

backtest() appended to its mutable default argument (or to the list passed in),
so every later backtest also had to satisfy all earlier constraints.
---
 experiments/utils/trading_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..d98b8a7 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -260,6 +260,9 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        # do not add to the caller's list, nor to the shared default argument
+        cons = list(cons)
+
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
-- 
2.43.0


From 2e109194592638f66aa2340d24a3e536559ad7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/36] fix: use each day's volatilities in the robust minimum
 risk portfolio

A misplaced bracket kept them out of the task arguments, so every day was
solved with the volatilities of the first.
---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index d98b8a7..4a6bee1 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -367,7 +367,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From fc51b13072b6cc2b4e44a08e8a357d0690af4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 14/36] fix: make the maximum Sharpe ratio backtest run

It used an attribute Lt_inv_hats that does not exist.
---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 4a6bee1..8ddd796 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -546,7 +546,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -565,7 +565,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From c7902eeceb636620d4b678025436669d1ad3cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 15/36] fix: accept rhos in the constructor of Trader

It checked self.rhos, which is not set yet.
---
 experiments/utils/trading_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 8ddd796..fd377a0 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -55,8 +55,8 @@ class Trader:
             assert list(self.returns.columns) == list(self.r_hats.columns)
 
         if rhos is not None:
-            assert list(self.returns.index) == list(self.rhos.index)
-            assert list(self.returns.columns) == list(self.rhos.columns)
+            assert list(self.returns.index) == list(rhos.index)
+            assert list(self.returns.columns) == list(rhos.columns)
 
         # Generate dataframe of standard deviations
         sigma_hats = np.array(sigma_hats)
-- 
2.43.0


From 3baecf7c3f8a25c971551e4a18946dc72128dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 16/36] fix: label the prescient row of the results table

It carried the name of whichever predictor came last.
---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0


From 10e604ca4a2f107f26c4236b958c1727f1cf6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 17/36] fix: dilute the current weights to the requested risk

The diluted weights of the first call were kept: metrics for another target
risk, or after another backtest, silently described the old portfolio.
---
 experiments/utils/trading_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index fd377a0..73d2743 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -42,6 +42,7 @@ class Trader:
         self.Sigma_hats = Sigma_hats
         self.r_hats = r_hats
         self.diluted = False
+        self.sigma_diluted = None
 
         assert list(self.returns.index) == list(self.Sigma_hats.keys())
         sigma_hats = []
@@ -224,6 +225,7 @@ class Trader:
 
         self.ws_diluted = np.array(ws_new)
         self.diluted = True
+        self.sigma_diluted = sigma_des
 
     def get_risk_adj_returns(self, sigma_des=0.1):
         """
@@ -263,6 +265,9 @@ class Trader:
         # do not add to the caller's list, nor to the shared default argument
         cons = list(cons)
 
+        # new weights, not diluted yet
+        self.diluted = False
+
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
@@ -591,8 +596,9 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
+                    if not self.diluted or sigma_des not in (None, self.sigma_diluted):
                         assert sigma_des is not None
+                        self.diluted = False
                         self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
                 if rf is None:
-- 
2.43.0


From 305371a755371ec875ff9c47425e8b67d28c11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 18/36] fix: make the vectorized iterated EWMA run again

ewma became a generator over dictionaries while iterated_ewma still passed it
arrays and indexed the result.
---
 experiments/utils/iterated_ewma_vec.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..bff2a9e 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -99,6 +99,14 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMAs.append(EWMA_t)
 
 
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    The same as ewma, for an array with the times along its first axis
+    """
+    EWMAs = ewma(dict(enumerate(y)), halflife, clip_at=clip_at, min_periods=min_periods)
+    return np.array([y[0]] + [EWMA for _, EWMA in EWMAs])
+
+
 def _get_realized_covs(returns):
     """
     param returns: numpy array where rows are vector of asset returns for t=0,1,...
@@ -218,7 +226,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +237,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +265,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From 74528c9e3eb743b0d04837ccb58ee9a197469df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 19/36] fix: no estimates instead of an IndexError when the
 sample is shorter than the warm-up

---
 cvx/covariance/ewma.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index 88201b3..6866d32 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -9,8 +9,8 @@ from pandas._typing import TimedeltaConvertibleTypes
 IEWMA = namedtuple("IEWMA", ["time", "mean", "covariance", "volatility"])
 
 
-def _generator2frame(generator):
-    return pd.DataFrame(dict(generator)).transpose()
+def _generator2frame(generator, columns):
+    return pd.DataFrame(dict(generator), index=columns).transpose()
 
 
 def _variance(returns, halflife, min_periods=0, clip_at=None):
@@ -44,7 +44,12 @@ def volatility(returns, halflife, min_periods=0, clip_at=None):
     else:
         clip_at_var = None
 
-    return np.sqrt(_generator2frame(_variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var)))
+    return np.sqrt(
+        _generator2frame(
+            _variance(returns, halflife, min_periods=min_periods, clip_at=clip_at_var),
+            columns=returns.columns,
+        )
+    )
 
 
 def center(returns, halflife, min_periods=0, mean_adj=False):
@@ -65,7 +70,8 @@ def center(returns, halflife, min_periods=0, mean_adj=False):
                 data=returns,
                 halflife=halflife,
                 min_periods=min_periods,
-            )
+            ),
+            columns=returns.columns,
         )
         return (returns - mean).dropna(how="all", axis=0), mean
     else:
@@ -244,6 +250,10 @@ def _general(
 
     beta = 1 - alpha
 
+    # e.g. the sample is shorter than the warm-up of a previous stage
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From 8679ef92cfd834522701610e1dcc09c79789b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 20/36] fix: no low-rank estimates instead of an IndexError
 when the sample is too short

---
 experiments/utils/low_rank_ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..96088a0 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -219,6 +219,10 @@ def _general_low_rank(
 
     beta = 1 - alpha
 
+    # e.g. the sample is shorter than the warm-up of a previous stage
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     F_init = np.zeros((n, rank))
     F_init[:, 0] = y[0]
-- 
2.43.0


From dd8ba19dd1e28f0242b28d989d6f7fa7e882f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 21/36] fix: keep the blending weights accurate for returns of
 any scale

---
 cvx/covariance/combination.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index f808a5b..9303dcb 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -268,7 +268,9 @@ class _CovarianceCombination:
         problem._construct_problem()
 
         for time, AA in A.items():
-            problem.A_param.value = AA
+            # scaling a row only adds a constant to the objective, but keeps the
+            # solver accurate whatever the units of the returns
+            problem.A_param.value = AA / AA.max(axis=1, keepdims=True)
             problem.P_chol_param.value = P_chol[time]
 
             try:
-- 
2.43.0


From bda54f5c9e52cb046a850ceab28aa9f8b4b20d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 22/36] fix: leave the caller's covariances as they are in
 add_to_diagonal

---
 experiments/utils/experiment_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 1c5e0a2..d48e514 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -314,10 +314,9 @@ def add_to_diagonal(Sigmas, lamda):
     param Sigmas: dictionary of covariance matrices
     param lamda: scalar
     """
-    for key in Sigmas.keys():
-        Sigmas[key] = Sigmas[key] + lamda * np.diag(np.diag(Sigmas[key]))
-
-    return Sigmas
+    return {
+        key: Sigma + lamda * np.diag(np.diag(Sigma)) for key, Sigma in Sigmas.items()
+    }
 
 
 def ecdf(data):
-- 
2.43.0


From be7b1f99fab7c99851df061c671b4a425369b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 23/36] fix: no results instead of an IndexError when no time
 can be solved

---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 9303dcb..3e63b93 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -223,6 +223,10 @@ class _CovarianceCombination:
         combination problem
         param times: list of time steps to solve the problem at; if None, solve at all available time steps
         """
+        # no time with a previous prediction of all experts, e.g. the sample is too short
+        if len(self.__Ls_shifted) == 0:
+            return
+
         # If window is None, use all available data; cap window at length of data
         window = window or len(self.__Ls_shifted)
         window = min(window, len(self.__Ls_shifted))
-- 
2.43.0


From ed2627777a570ca24fe98b6e3a11878839d58cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 24/36] fix: realized covariances and volatilities of periods
 with a single return

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index d48e514..f76b2b1 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From 2ad793cc7ec0385879d762a6b0983b82806fd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 25/36] fix: make the volatility controlled backtest run

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 73d2743..1e5c91b 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -159,7 +159,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From f246332cc4af1fb39a31f9cd3ef8e1704b2feb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 26/36] fix: honour a start or end date that is falsy (index
 label 0)

---
 experiments/utils/portfolio_backtests.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index ce9a14f..e5d6ce8 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -114,8 +114,9 @@ class PortfolioBacktest(ABC):
         self.cov_predictors = cov_predictors
         self.mean_predictors = mean_predictors
         self.names = names
-        self.start_date = start_date or list(cov_predictor.keys())[0]
-        self.end_date = end_date or list(cov_predictor.keys())[-1]
+        dates = list(cov_predictor.keys())
+        self.start_date = dates[0] if start_date is None else start_date
+        self.end_date = dates[-1] if end_date is None else end_date
 
     @abstractmethod
     def backtest(self):
-- 
2.43.0


From 93726983c33633337a736516cd581b24e70d5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 27/36] fix: regularisation lost its factors when eigenvalues
 are repeated

LAPACK's driver for a subset of eigenvalues can return no eigenpairs at all
(e.g. equicorrelated assets), which left a rank-0 factor model.
---
 cvx/covariance/regularization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index f2749de..fc450ed 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -26,7 +26,9 @@ def _regularize_correlation(R, r):
     n = R.shape[0]
 
     # ascending order of the largest r eigenvalues
-    lamda, Q = sc.linalg.eigh(a=R, subset_by_index=[n - r, n - 1])
+    # (asking LAPACK for a subset may return none if eigenvalues are repeated)
+    lamda, Q = sc.linalg.eigh(a=R)
+    lamda, Q = lamda[n - r :], Q[:, n - r :]
 
     # Sort eigenvalues in descending order
     lamda = lamda[::-1]
-- 
2.43.0


From 1d0492f542a0ea0437413582bb36cb01392168d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 28/36] fix: low-rank iterated EWMA hands out a separate zero
 mean at every time

---
 experiments/utils/low_rank_ewma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 96088a0..27c6939 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -83,8 +83,6 @@ def low_rank_iterated_ewma(
     #     print(adj_mean)
     #     assert False
 
-    m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
-
     for t, low_rank in _ewma_low_rank(
         data=adj, halflife=cov_halflife, min_periods=min_periods_cov, rank=rank
     ):
@@ -92,6 +90,9 @@ def low_rank_iterated_ewma(
             m = scale_mean(
                 vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t]
             )
+        else:
+            # a new object every time, as it is handed out
+            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
 
         yield IEWMA(
             time=t,
-- 
2.43.0


From 008d3705cb098c5234470a88f874b8e9e2bcca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 29/36] fix: EWMA stream does not depend on what is done with
 the averages handed out

---
 experiments/utils/iterated_ewma_vec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index bff2a9e..914f51d 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections import namedtuple
+from copy import copy
 
 import numpy as np
 import pandas as pd
@@ -92,7 +93,8 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMA_t = get_next_ewma(EWMA_t, y_last, t, beta, clip_at, min_periods)
         EWMA_old = get_next_ewma(EWMA_old, y[time], t + 1, beta, clip_at, min_periods)
 
-        yield time, EWMA_old
+        # a copy, as the average itself is needed for the next one
+        yield time, copy(EWMA_old)
 
         # EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
 
-- 
2.43.0


From c9517f3fe1ed065f6c73bba3b1715d006665e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:54 +0000
Subject: [PATCH 30/36] fix: factor form of a singular covariance had undefined
 factors

---
 cvx/covariance/regularization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index fc450ed..3945343 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -65,7 +65,8 @@ def regularize_covariance(sigmas, r, low_rank_format=False):
             cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)
             yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)
         else:
-            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(R.Lambda)
+            # the eigenvalues of a singular matrix may be negative, up to rounding
+            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0.0))
             d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))
             yield (
                 time,
-- 
2.43.0


From d8f1cd4ab85bb22977f7411b55f588b3bfda6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:59 +0000
Subject: [PATCH 31/36] fix: minimum risk and risk parity backtests failed to
 pickle the solved problem

---
 experiments/utils/trading_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 1e5c91b..bc5295a 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -13,6 +13,14 @@ def _get_L_inv(covariance):
     return np.linalg.inv(np.linalg.cholesky(Theta))
 
 
+def _forget_solver_results(prob):
+    """
+    cvxpy keeps the results of some solvers (e.g. Clarabel) for warm starts; they
+    cannot be pickled, so a solved problem cannot be handed to other processes
+    """
+    prob._solver_cache = {}
+
+
 metrics = namedtuple("metrics", ["mean_return", "risk", "sharpe", "drawdown"])
 
 
@@ -355,6 +363,7 @@ class Trader:
                 if portfolio_type == "robust_min_risk":
                     sigma_hat_param.value = all_sigma_hats[0]
                 prob.solve()
+                _forget_solver_results(prob)
 
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
@@ -521,6 +530,7 @@ class Trader:
             # Solve problem with random inputs once to speed up later solves
             L_inv_param.value = [*self.L_inv_hats.values()][0]
             prob.solve()
+            _forget_solver_results(prob)
 
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
-- 
2.43.0


From 9624d5defea6910be6ecc3dd909291a19dcf9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 32/36] fix: low rank plus diagonal models could not be pickled

---
 cvx/covariance/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index 3945343..1f2cbfa 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -9,7 +9,7 @@ import scipy as sc
 # from tqdm import tqdm
 
 LowRank = namedtuple("LowRank", ["Loading", "Lambda", "D", "Approximation"])
-LowRankDiag = namedtuple("LowRankCovariance", ["F", "d"])
+LowRankDiag = namedtuple("LowRankDiag", ["F", "d"])
 
 
 def _regularize_correlation(R, r):
-- 
2.43.0


From 7f1f57366ecc2ca5299fe7f4867338f2db2d505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:29 +0000
Subject: [PATCH 33/36] fix: trend line of the yearly Sharpe ratios is the fit
 through the known ratios

---
 experiments/utils/experiment_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index f76b2b1..a7fe75f 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -58,7 +58,8 @@ def yearly_SR(trader, plot=True, regression_line=True):
 
     if plot:
         # Fit regression line to SRs
-        coefficients = np.polyfit(SRs.index.year + 1, SRs.values, 1)
+        known = SRs.notna().values  # years with too few trading days have none
+        coefficients = np.polyfit(SRs.index.year[known], SRs.values[known], 1)
         sr_pred = np.polyval(coefficients, SRs.index.year)
 
         plt.plot(SRs, marker="o")
-- 
2.43.0


From 34770e8af030013ebd3f40ae63b5fc4850076b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 34/36] fix: annual risk ignored the adjustment factor when
 excess returns are asked for

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index bc5295a..7314520 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -665,7 +665,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From 4dc811f1c5ab50c2b625116971a0020efca6227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:40 +0000
Subject: [PATCH 35/36] fix: volatility control scaled its target by the root
 of the adjustment factor

---
 experiments/utils/trading_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 7314520..1a6d1e8 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -161,7 +161,7 @@ class Trader:
         param obj: list of objective values of the minimum risk portfolios
         param sigma_des: desired volatility of the portfolio
         """
-        sigma_des = sigma_des * np.sqrt(self.adjust_factor)
+        sigma_des = sigma_des * self.adjust_factor
         sigma_des = sigma_des / np.sqrt(252)
         # sigma_r = np.sqrt(obj)
 
@@ -649,7 +649,7 @@ class Trader:
         """
         param adjust_factor: factor to results by, \
             e.g., if we have a model for 100*r_daily, the volatility\
-                should be adjusted by 1/sqrt(100)
+                should be adjusted by 1/100
 
 
         Computes the avg return, stdev, sharpe ratio, and max drawdown of the portfolio.
-- 
2.43.0


From a2dba8b7da7f7743351737f081a8ab87fd2de48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:20 +0000
Subject: [PATCH 36/36] fix: means of experts without covariances were silently
 ignored

---
 cvx/covariance/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 3e63b93..c0460c7 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -168,6 +168,7 @@ class _CovarianceCombination:
         # Assert Sigmas and means have same keys if means not None
         n = returns.shape[1]
         if means is not None:
+            assert set(sigmas.keys()) == set(means.keys()), "sigmas and means must have same keys"
             for key, sigma in sigmas.items():
                 # Assert sigmas and means have same keys
                 assert sigma.keys() == means[key].keys(), "sigmas and means must have same keys"
-- 
2.43.0

