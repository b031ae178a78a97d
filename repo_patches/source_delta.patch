From afb648f0b55e303f1b67a8f0f0d10d4177b267b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 001/117] fix: build float right-hand sides so integer bounds
 work without long_only

---
 pyvallocation/utils/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..0084e05 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -361,7 +361,7 @@ def build_G_h_A_b(
 
     G = _stack(G_rows)
     h = (
-        np.asarray(h_vals)
+        np.asarray(h_vals, float)
         if h_vals
         else (None if return_none_if_empty else np.zeros(0))
     )
-- 
2.43.0


From f91a5cb4777d8ee9d2c5f7f4c71bd90191cab404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 002/117] fix: reject non-finite coefficients in custom
 constraint rows

---
 pyvallocation/utils/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index 0084e05..cea04b1 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -303,6 +303,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_G_h row length %d mismatch", row_arr.size)
                 raise ValueError("additional_G_h row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_G_h row must be finite")
             _check_number(rhs, "rhs in additional_G_h")
             G_rows.append(row_arr)
             h_vals.append(rhs)
@@ -317,6 +319,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_A_b row length %d mismatch", row_arr.size)
                 raise ValueError("additional_A_b row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_A_b row must be finite")
             _check_number(rhs, "rhs in additional_A_b")
             A_rows.append(row_arr)
             b_vals.append(rhs)
-- 
2.43.0


From 8b4e16a40ab8d1d23ee27665b33f62f0d7a1ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 003/117] fix: use the transposed Cholesky factor in the robust
 optimiser's cone

||Lw|| differs from sqrt(w'Sw) for correlated uncertainty; ||L'w|| is equal to it.
---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..4e7e160 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L', so ||L'w||^2 = w'Sw
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 03140ef47c2b8bd77d40c566075f2828cc95ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 004/117] fix: build the robust objective correctly when
 proportional costs are given

np.hstack received a nested tuple of arrays and raised a dimension error.
---
 pyvallocation/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 4e7e160..3b73317 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -861,9 +861,10 @@ class RobustOptimizer(_BaseOptimization):
         n_vars = n + 1 + extra            #  w | t | (u^+,u^-)
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
-        c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+        turnover_cost = (
+            np.hstack((self._costs, self._costs)) if self._has_costs else np.empty(0)
         )
+        c = np.hstack((-self._mean, penalty, turnover_cost))
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
-- 
2.43.0


From d5e83918bbb2ebe9d7f5f89d1934f062c720a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 005/117] fix: use the transposed Cholesky factor in relaxed
 risk parity's risk cone

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3b73317..a95cfd2 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1146,7 +1146,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T  # Sigma = L L', so ||L'x||^2 = x'Sigma x
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From 8d6ef123ee3b49cd8ff38e450a99ab7964da9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 006/117] fix: scale risk budgets so relaxed risk parity
 attains them

With floors b_i*gamma^2 and a ceiling sigma/sqrt(n) the objective psi - gamma was
unbalanced and could prefer portfolios with unequal contributions; n*b_i*gamma^2
restores psi >= gamma with equality exactly at the requested budgets.
---
 pyvallocation/optimization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index a95cfd2..177ae58 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -988,7 +988,7 @@ class RelaxedRiskParity(_BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             risk_budgets: Optional target risk budgets :math:`b_i > 0` with
                 :math:`\\sum b_i = 1`.  When provided, the ARC floor becomes
-                :math:`x_i \\zeta_i \\ge b_i \\gamma^2` (risk budgeting).
+                :math:`x_i \\zeta_i \\ge n b_i \\gamma^2` (risk budgeting).
                 When ``None`` (default), equal budgets :math:`b_i = 1/N` are
                 used, recovering the standard ERC portfolio.
         """
@@ -1169,13 +1169,14 @@ class RelaxedRiskParity(_BaseOptimization):
             h_soc_all.append(np.zeros(n + 1, dtype=float))
             soc_dims.append(n + 1)
 
-        # ARC floor: x_i * zeta_i >= b_i * gamma^2
-        # Encoded via rotated SOC: sqrt(4*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
+        # ARC floor: x_i * zeta_i >= n * b_i * gamma^2 (equal budgets: x_i * zeta_i >= gamma^2),
+        # on the same scale as psi >= sigma / sqrt(n), so psi - gamma = 0 exactly at risk parity.
+        # Encoded via rotated SOC: sqrt(4*n*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
         for i in range(n):
             block = np.zeros((3, n_vars), dtype=float)
             block[0, x_slice.start + i] = -1.0
             block[0, zeta_slice.start + i] = -1.0
-            block[1, gamma_idx] = -2.0 * np.sqrt(self._risk_budgets[i])
+            block[1, gamma_idx] = -2.0 * np.sqrt(n * self._risk_budgets[i])
             block[2, x_slice.start + i] = -1.0
             block[2, zeta_slice.start + i] = 1.0
             G_soc_all.append(block)
-- 
2.43.0


From 377f676e36e82cb705ef8d21a4e9171c4e8baac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 007/117] fix: report signed CVaR instead of its absolute value

Taking the absolute value turned tail gains (negative CVaR) into losses, so minimum-risk
selection on such frontiers returned the wrong portfolio.
---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From f9196ed70681bc48cacfb6d4505181dbbdf02fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 008/117] fix: enforce bounds and all equalities in max_sharpe

The auxiliary problem replaced G w <= h by G y <= 0 and dropped equalities, so any
non-zero bound was either ignored or made the problem infeasible. Homogenise both
with the scale variable kappa instead.
---
 pyvallocation/optimization.py | 64 ++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 177ae58..b8b5d34 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -449,9 +449,11 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
            \min_{y}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           (\mu - r_f)^\top y = 1,\; G\,y \le h\,\kappa,\; A\,y = b\,\kappa,\;
+           \kappa \ge 0
 
-        The optimal weights are ``w = y / \mathbf{1}^\top y``.
+        The optimal weights are ``w = y / \kappa``. When no equality fixes the scale,
+        ``\mathbf{1}^\top y = \kappa`` (fully invested) is used.
 
         Args:
             risk_free_rate: Risk-free rate for Sharpe computation.
@@ -462,52 +464,44 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         mu_excess = np.asarray(self._mean).ravel() - risk_free_rate
         N = self._I
 
-        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = 1
-        P = matrix(2.0 * np.asarray(self._cov, dtype=float))
-        q = matrix(np.zeros(N))
+        # Auxiliary problem in (y, kappa) with w = y / kappa:
+        #   min y'Σy  s.t.  (μ-rf)'y = 1,  G y <= h kappa,  A y = b kappa,  kappa >= 0
+        P_np = np.zeros((N + 1, N + 1))
+        P_np[:N, :N] = 2.0 * np.asarray(self._cov, dtype=float)
+        P, q = matrix(P_np), matrix(np.zeros(N + 1))
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
-        A_rows = [mu_excess.reshape(1, -1)]
-        b_vals = [1.0]
+        A_rows = [np.append(mu_excess, 0.0)]
+        scale_fixed = False
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
-            A_np = np.asarray(self._A)
-            b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
-                    continue
-                A_rows.append(A_np[row_idx:row_idx+1])
-                b_vals.append(0.0)
-
+            A_np = np.asarray(self._A, dtype=float)
+            b_np = np.asarray(self._b, dtype=float).ravel()
+            A_rows.extend(np.column_stack([A_np, -b_np]))
+            scale_fixed = bool(np.any(np.abs(b_np) > 1e-12))
+        if not scale_fixed:
+            A_rows.append(np.append(np.ones(N), -1.0))
+        b_vals = np.zeros(len(A_rows))
+        b_vals[0] = 1.0
         A_mat = matrix(np.vstack(A_rows))
-        b_vec = matrix(np.array(b_vals, dtype=float))
+        b_vec = matrix(b_vals)
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        G_rows = [np.append(np.zeros(N), -1.0).reshape(1, -1)]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
+            G_np = np.asarray(self._G, dtype=float)
+            h_np = np.asarray(self._h, dtype=float).ravel()
+            G_rows.append(np.column_stack([G_np, -h_np]))
+        G_mat = matrix(np.vstack(G_rows))
+        h_vec = matrix(np.zeros(G_mat.size[0]))
 
         sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
         y = np.asarray(sol["x"]).ravel()
-        y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
+        kappa = y[N]
+        if abs(kappa) < 1e-12:
             raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
 
-        w = y / y_sum
+        w = y[:N] / kappa
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
         risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
-- 
2.43.0


From 70043b343c836fa6078f867f0d55e214bfe08a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 009/117] fix: compute risk parity's maximum return over its
 own feasible set

---
 pyvallocation/optimization.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b8b5d34..cfed76c 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1280,13 +1280,18 @@ class RelaxedRiskParity(_BaseOptimization):
             h_lp_vals.append(h_user)
         G_lp_rows.append(-np.eye(n, dtype=float))
         h_lp_vals.append(np.zeros(n, dtype=float))
+        # ``solve`` also requires non-negative marginal risks (zeta = Sigma x >= 0)
+        G_lp_rows.append(-self._cov)
+        h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
+        ones = np.ones((1, n), dtype=float)
         if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
-            b_lp = np.array([1.0], dtype=float)
-        else:
+            A_lp, b_lp = ones, np.array([1.0], dtype=float)
+        elif any(np.allclose(row, ones[0], atol=1e-8, rtol=1e-8) for row in A_user):
             A_lp, b_lp = A_user, b_user
+        else:  # same budget row as in ``solve``
+            A_lp, b_lp = np.vstack([ones, A_user]), np.hstack([1.0, b_user])
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From c94fb73c5d8e07cc21230375e01f00200415ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 010/117] fix: scale the mean-variance objective so small
 variances are minimised accurately

---
 pyvallocation/optimization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index cfed76c..feab8b6 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -394,6 +394,11 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         P, q = 2 * self._cov, np.zeros(self._I)
         if initial_weights is not None and market_impact_costs is not None:
             P, q = _quadratic_turnover(P, q, initial_weights, market_impact_costs)
+        # The solver's gap tolerance is absolute: bring the objective to order one
+        # so that small (e.g. daily) variances are minimised just as accurately.
+        scale = float(np.trace(P)) / (2 * max(self._I, 1))
+        if scale > 0:
+            P, q = P / scale, q / scale
         self._P, self._q = matrix(P), matrix(q)
         self._finalise_expected_row(0)
 
@@ -419,7 +424,11 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
             P_reg = matrix(P_np + np.eye(self._I) * ridge)
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b)
+            # plain steps and another KKT factorisation break interior-point limit cycles
+            sol = solvers.qp(
+                P_reg, self._q, G, h, self._A, self._b,
+                kktsolver="ldl", options={**solvers.options, "use_correction": False},
+            )
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
-- 
2.43.0


From 909aade8fd2edef09a8993af461eae6682056d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 011/117] fix: absorb rounding at the quantile in portfolio_var
 and portfolio_cvar

---
 pyvallocation/utils/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..dcddedd 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -93,7 +93,8 @@ def portfolio_cvar(
     order = np.argsort(pf_pnl, axis=0)
     sorted_pnl = np.take_along_axis(pf_pnl, order, axis=0)
     sorted_p = np.take_along_axis(np.broadcast_to(p, pf_pnl.shape), order, axis=0)
-    var_indices = (np.cumsum(sorted_p, axis=0) >= (1.0 - conf)).argmax(axis=0)
+    # 1e-12 absorbs rounding in 1 - conf and the cumulative sum (e.g. conf=0.95, T=20)
+    var_indices = (np.cumsum(sorted_p, axis=0) >= (1.0 - conf) - 1e-12).argmax(axis=0)
     var = np.take_along_axis(sorted_pnl, var_indices[np.newaxis, :], axis=0)
 
     # Exact Rockafellar-Uryasev discrete CVaR with quantile boundary correction.
@@ -153,7 +154,8 @@ def portfolio_var(
     order = np.argsort(pf_pnl, axis=0)
     sorted_pnl = np.take_along_axis(pf_pnl, order, axis=0)
     sorted_p = np.take_along_axis(np.broadcast_to(p, pf_pnl.shape), order, axis=0)
-    var_indices = (np.cumsum(sorted_p, axis=0) >= (1.0 - conf)).argmax(axis=0)
+    # 1e-12 absorbs rounding in 1 - conf and the cumulative sum (e.g. conf=0.95, T=20)
+    var_indices = (np.cumsum(sorted_p, axis=0) >= (1.0 - conf) - 1e-12).argmax(axis=0)
     var = np.take_along_axis(sorted_pnl, var_indices[np.newaxis, :], axis=0)
 
     risk = -var
-- 
2.43.0


From 87e4b3ead003f2d7186b231ee0679b74d726228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 012/117] fix: report zero volatility instead of NaN for
 riskless portfolios

---
 pyvallocation/portfolioapi.py      | 10 +++++-----
 pyvallocation/stress.py            |  4 ++--
 pyvallocation/utils/functions.py   |  2 +-
 pyvallocation/utils/performance.py |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..61da39f 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1318,7 +1318,7 @@ class PortfolioWrapper:
         weights = optimizer.efficient_frontier(num_portfolios)
         mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
-        risks = np.sqrt(np.sum((weights.T @ cov_r) * weights.T, axis=1))
+        risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
         alternate_risks = self._cvar_overlay(weights)
 
@@ -1376,7 +1376,7 @@ class PortfolioWrapper:
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
             cov = np.cov(scenarios.T, aweights=probs, bias=True)
-            vols = np.sqrt(np.sum((weights.T @ cov) * weights.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
             logger.debug("Unable to compute volatility proxy for CVaR frontier: %s", exc)
@@ -1518,7 +1518,7 @@ class PortfolioWrapper:
                     cov_ref = np.asarray(cov_ref, dtype=float)
                 if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
                     raise ValueError("`return_cov` must be a square matrix matching asset count.")
-                vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+                vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1), 0.0))
                 alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1533,7 +1533,7 @@ class PortfolioWrapper:
                 )
                 if "Volatility" not in alternate_risks:
                     cov = np.cov(scen.T, aweights=probs, bias=True)
-                    vols = np.sqrt(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1))
+                    vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1608,7 +1608,7 @@ class PortfolioWrapper:
 
         mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
-        risk = np.sqrt(weights.T @ cov_r @ weights)
+        risk = np.sqrt(max(weights.T @ cov_r @ weights, 0.0))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"MV Portfolio (Return >= {return_target:.4f})")
 
diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..8090ea6 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -188,7 +188,7 @@ def stress_test(
         mean = (W.T @ mu_vec).reshape(-1)
         var = np.asarray(portfolio_var(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
         cvar = np.asarray(portfolio_cvar(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
-        stdev = np.sqrt(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T))
+        stdev = np.sqrt(np.maximum(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T), 0.0))
         ens = compute_effective_number_scenarios(probs)
         return mean, stdev, var, cvar, ens
 
@@ -522,7 +522,7 @@ def stress_invariants(
             sigma_m = np.asarray(sigma, float)
             w_v = np.asarray(w, float).ravel()
             mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(w_v @ sigma_m @ w_v))
+            stdev_r = float(np.sqrt(max(w_v @ sigma_m @ w_v, 0.0)))
             var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             ens = compute_effective_number_scenarios(p)
diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index dcddedd..22d4872 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -46,7 +46,7 @@ def portfolio_volatility(
         w: Weights vector ``(N,)`` or matrix ``(N, M)``.
         cov: Covariance matrix ``(N, N)``.
     """
-    var = portfolio_variance(w, cov)
+    var = np.maximum(portfolio_variance(w, cov), 0.0)  # rounding below zero for riskless portfolios
     return float(np.sqrt(var)) if np.isscalar(var) else np.sqrt(var)
 
 def portfolio_cvar(
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..783ba20 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -189,7 +189,7 @@ def performance_report(
     cov_mat = np.asarray(cov, dtype=float)
 
     mean = float(np.dot(w_vec, mu_vec.reshape(-1)))
-    stdev = float(np.sqrt(w_vec @ cov_mat @ w_vec))
+    stdev = float(np.sqrt(max(w_vec @ cov_mat @ w_vec, 0.0)))
     w_matrix = w_vec.reshape(-1, 1)
     var = float(portfolio_var(w_matrix, R_arr, p, confidence=conf, demean=demean))
     cvar = float(portfolio_cvar(w_matrix, R_arr, p, confidence=conf, demean=demean))
-- 
2.43.0


From edc1bf5d0c374a69516db2ce685d3d9720a636d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 013/117] fix: report the robust radius of the returned weights
 when the penalty is zero

---
 pyvallocation/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index feab8b6..caad509 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -937,8 +937,10 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # with a zero penalty nothing pushes t down to the norm, so report the norm itself
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From 5928fbc44e1fa929631dcf6d286a04c1c6ef96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 014/117] fix: align labelled transaction costs by asset name
 and validate per-call costs

---
 pyvallocation/portfolioapi.py | 53 ++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 61da39f..a47929e 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1117,27 +1117,42 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-        if iw.shape != (self.dist.N,):
-            raise ValueError(
-                f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
-            )
+        iw, mic, pc = self._cost_arrays(costs)
         self.initial_weights = iw
-        if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
-            if mic.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
-                )
+        if mic is not None:
             self.market_impact_costs = mic
-        if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
-            if pc.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-                )
+        if pc is not None:
             self.proportional_costs = pc
 
+    def _cost_arrays(
+        self, costs: TransactionCosts
+    ) -> Tuple[np.ndarray, Optional[np.ndarray], Optional[np.ndarray]]:
+        """Return the cost vectors as arrays in asset order (labelled series are aligned by name).
+
+        Args:
+            costs: Transaction cost specification.
+
+        Returns:
+            (initial_weights, market_impact_costs, proportional_costs)
+        """
+        names = self.dist.asset_names
+
+        def _vector(value, label: str) -> np.ndarray:
+            if isinstance(value, pd.Series) and names is not None and not isinstance(value.index, pd.RangeIndex):
+                if len(value) != len(names) or set(value.index) != set(names):
+                    raise ValueError(f"`{label}` labels do not match the asset names {list(names)}.")
+                value = value.reindex(names)
+            arr = np.array(value, dtype=float).ravel()
+            if arr.shape != (self.dist.N,):
+                raise ValueError(f"`{label}` must have shape ({self.dist.N},), got {arr.shape}")
+            return arr
+
+        return (
+            _vector(costs.initial_weights, "initial_weights"),
+            None if costs.market_impact_costs is None else _vector(costs.market_impact_costs, "market_impact_costs"),
+            None if costs.proportional_costs is None else _vector(costs.proportional_costs, "proportional_costs"),
+        )
+
     def _resolve_constraints(
         self,
         constraints: Union[Constraints, Dict[str, Any], None],
@@ -1165,9 +1180,7 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw, mic, pc = self._cost_arrays(costs)
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
-- 
2.43.0


From 6e76fc348267f58673e2cf14da483b82eab3aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 015/117] fix: align labelled weights by asset name in the
 portfolio risk measures

---
 pyvallocation/utils/functions.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 22d4872..e26a788 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -16,6 +16,16 @@ def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarr
     arr = np.asarray(w, dtype=float)
     return arr.reshape(-1, 1) if arr.ndim == 1 else arr
 
+def _align_weights(w, columns):
+    """Reorder labelled weights to labelled ``columns``; unlabelled inputs stay positional."""
+    if not isinstance(w, (pd.Series, pd.DataFrame)) or isinstance(w.index, pd.RangeIndex):
+        return w
+    if isinstance(columns, pd.RangeIndex) or w.index.equals(columns):
+        return w
+    if not w.index.is_unique or len(w) != len(columns) or not w.index.isin(columns).all():
+        raise ValueError("Weight labels must match the asset labels.")
+    return w.reindex(columns)
+
 def portfolio_variance(
     w: np.ndarray | pd.Series,
     cov: np.ndarray | pd.DataFrame,
@@ -30,6 +40,8 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
+    if isinstance(cov, pd.DataFrame):
+        w = _align_weights(w, cov.columns)
     W = _ensure_weights_matrix(w)
     cov_np = np.asarray(cov, dtype=float)
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
@@ -78,6 +90,8 @@ def portfolio_cvar(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    if isinstance(R, pd.DataFrame):
+        w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
 
@@ -140,6 +154,8 @@ def portfolio_var(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    if isinstance(R, pd.DataFrame):
+        w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
     p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
 
@@ -147,7 +163,7 @@ def portfolio_var(
         R_arr = R_arr - p.T @ R_arr
 
     with np.errstate(over='ignore', under='ignore', invalid='ignore', divide='ignore'):
-        pf_pnl = R_arr @ w
+        pf_pnl = R_arr @ _ensure_weights_matrix(w)
     if pf_pnl.ndim == 1:
         pf_pnl = pf_pnl.reshape(-1, 1)
 
-- 
2.43.0


From fad9f29f6d8011b4a8c2811cc7e285bd96782932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 016/117] fix: reject empty samples in exponential-decay
 probabilities

---
 pyvallocation/probabilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 73b2bfd..57cb209 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -106,6 +106,8 @@ def generate_exp_decay_probabilities(
         np.ndarray: Exponentially decaying probabilities summing to one.
     """
 
+    if num_observations <= 0:
+        raise ValueError("num_observations must be greater than 0.")
     if half_life <= 0:
         raise ValueError("half_life must be greater than 0.")
     p = np.exp(
-- 
2.43.0


From d671b11a485c26a2b35139e01740b268d553a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 017/117] fix: size the discrete allocator's search by gross
 exposure

---
 pyvallocation/discrete_allocation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..c69dedd 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -372,7 +372,9 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    # Leveraged targets can exceed the funds, so size the search by gross exposure.
+    gross_value = max(inputs.total_value, float(np.abs(target_values).sum()))
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(gross_value / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -391,7 +393,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.full(n, np.inf),
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From 44cce067f6a71214fe5b85ec2b0deb25ffdbd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 018/117] fix: solve the discrete allocation to optimality

---
 pyvallocation/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index c69dedd..d2ea3b6 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -433,7 +433,8 @@ def allocate_mip(
         ub=-target_values,
     )
 
-    options = solver_options or {}
+    # HiGHS stops at a 1e-4 relative gap by default, which is not the optimum.
+    options = {"mip_rel_gap": 0.0, **(solver_options or {})}
     result = optimize.milp(
         c=c,
         integrality=integrality,
-- 
2.43.0


From f58429f6a5f0c48550a2a00bd59f13cc83f00a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 019/117] fix: reject non-finite prices, weights and funds and
 fractional lots

---
 pyvallocation/discrete_allocation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index d2ea3b6..c7db807 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -61,11 +61,13 @@ def _lot_sizes_to_series(lot_sizes: LotSizeLike, index: Iterable[str]) -> pd.Ser
     if lot_sizes is None:
         return pd.Series(1, index=index, dtype=int)
     if isinstance(lot_sizes, pd.Series):
-        series = lot_sizes.astype(int)
+        series = lot_sizes.astype(float)
     elif isinstance(lot_sizes, Mapping):
-        series = pd.Series(lot_sizes, dtype=int)
+        series = pd.Series(lot_sizes, dtype=float)
     else:
         raise TypeError("`lot_sizes` must be a mapping or pandas Series if provided.")
+    if not np.isfinite(series).all() or (series != np.floor(series)).any():
+        raise ValueError("All lot sizes must be positive integers.")
     series = series.reindex(index).fillna(1).astype(int)
     if (series <= 0).any():
         raise ValueError("All lot sizes must be positive integers.")
@@ -102,6 +104,8 @@ class DiscreteAllocationInput:
             missing_str = ", ".join(sorted(missing_prices))
             raise ValueError(f"Missing latest prices for assets: {missing_str}")
 
+        if not np.isfinite(weights).all():
+            raise ValueError("`weights` must be finite.")
         weights = weights.loc[~np.isclose(weights, 0.0)]
         if weights.empty:
             raise ValueError("`weights` must contain at least one non-zero entry.")
@@ -109,11 +113,11 @@ class DiscreteAllocationInput:
         self._has_shorts = bool((weights < 0).any())
 
         latest_prices = latest_prices.reindex(weights.index)
-        if (latest_prices <= 0).any():
-            raise ValueError("All latest prices must be strictly positive.")
+        if not np.isfinite(latest_prices).all() or (latest_prices <= 0).any():
+            raise ValueError("All latest prices must be strictly positive and finite.")
 
-        if self.total_value <= 0:
-            raise ValueError("`total_value` must be positive.")
+        if not np.isfinite(self.total_value) or self.total_value <= 0:
+            raise ValueError("`total_value` must be positive and finite.")
 
         lot_sizes = _lot_sizes_to_series(self.lot_sizes, weights.index)
 
-- 
2.43.0


From 728053b9805cb0b27424725cbe92f0c9d6090155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 020/117] fix: reject duplicate assets in discrete allocation
 targets

---
 pyvallocation/discrete_allocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index c7db807..ce63f22 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -99,6 +99,9 @@ class DiscreteAllocationInput:
         weights = _to_series(self.weights, "weights").astype(float)
         latest_prices = _to_series(self.latest_prices, "latest_prices").astype(float)
 
+        if not weights.index.is_unique:
+            raise ValueError("`weights` must not contain duplicate assets.")
+
         missing_prices = set(weights.index) - set(latest_prices.index)
         if missing_prices:
             missing_str = ", ".join(sorted(missing_prices))
-- 
2.43.0


From 74d5f0482ed3c3c1feec09fc7959d18344a2a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 021/117] fix: never return entropy-pooling posteriors that
 miss the views

---
 pyvallocation/views.py | 89 ++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..ef8d1ab 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -76,6 +76,10 @@ def below(value):
     """
     return ("<", _validate_finite(value))
 
+# Largest violation of a view, relative to its largest coefficient, accepted from the dual solver.
+_VIEW_TOLERANCE = 1e-4
+
+
 def _entropy_pooling_dual_objective(
     lagrange_multipliers: np.ndarray,
     log_p_col: np.ndarray,
@@ -219,6 +223,7 @@ def entropy_pooling(
 
     Raises:
         ValueError: If an unsupported ``method`` is specified.
+        RuntimeError: If no posterior satisfying the constraints is found.
 
     Notes:
         Adapted from `fortitudo.tech` (https://github.com/fortitudo-tech/fortitudo.tech).
@@ -242,63 +247,71 @@ def entropy_pooling(
 
     num_equalities = b_col.shape[0]
 
+    lhs_eq = np.atleast_2d(np.asarray(A, dtype=float))
+
     if G is None or h is None:
-        current_lhs = A
+        current_lhs = lhs_eq
         current_rhs_stacked = b_col
         bounds_lower = [-np.inf] * num_equalities
         bounds_upper = [np.inf] * num_equalities
     else:
-        h_col = h.reshape(-1, 1)
+        h_col = np.asarray(h, dtype=float).reshape(-1, 1)
         num_inequalities = h_col.shape[0]
-        current_lhs = np.vstack((A, G))
+        current_lhs = np.vstack((lhs_eq, np.atleast_2d(np.asarray(G, dtype=float))))
         current_rhs_stacked = np.vstack((b_col, h_col))
         bounds_lower = [-np.inf] * num_equalities + [0.0] * num_inequalities
         bounds_upper = [np.inf] * (num_equalities + num_inequalities)
 
     log_p_col = np.log(p_col)
-
-    initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
     optimizer_bounds = Bounds(bounds_lower, bounds_upper)
+    row_scale = np.maximum(np.max(np.abs(current_lhs), axis=1), np.finfo(float).tiny)
+
+    failure = ""
+    # The dual is unbounded when the views cannot be satisfied, and either method may
+    # stall on it or report convergence far from it: only a posterior that satisfies
+    # the views is ever returned.
+    for current_method in (opt_method, "L-BFGS-B" if opt_method == "TNC" else "TNC"):
+        solver_options = {"maxfun": 10000}
+        if current_method == "L-BFGS-B":
+            solver_options["maxiter"] = 1000
+
+        solution = minimize(
+            _entropy_pooling_dual_objective,
+            x0=np.zeros(current_lhs.shape[0]),
+            args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
+            method=current_method,
+            jac=True,
+            bounds=optimizer_bounds,
+            options=solver_options,
+        )
 
-    solver_options = {"maxfun": 10000}
-    if opt_method == "L-BFGS-B":
-        solver_options["maxiter"] = 1000
-
-    solution = minimize(
-        _entropy_pooling_dual_objective,
-        x0=initial_lagrange_multipliers,
-        args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
-        method=opt_method,
-        jac=True,
-        bounds=optimizer_bounds,
-        options=solver_options,
-    )
+        if not solution.success:
+            status = getattr(solution, "status", None)
+            message = getattr(solution, "message", "")
+            failure = failure or f"(status={status}): {message}"
+            continue
 
-    if not solution.success:
-        status = getattr(solution, "status", None)
-        message = getattr(solution, "message", "")
-        raise RuntimeError(
-            "Entropy pooling optimisation failed "
-            f"(status={status}): {message}"
-        )
+        optimal_lagrange_multipliers_col = solution.x[:, np.newaxis]
 
-    optimal_lagrange_multipliers_col = solution.x[:, np.newaxis]
+        with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
+            posterior_exponent = log_p_col - 1.0 - current_lhs.T @ optimal_lagrange_multipliers_col
+        q_posterior = np.exp(np.clip(posterior_exponent, -700.0, 700.0))
 
-    with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
-        posterior_exponent = log_p_col - 1.0 - current_lhs.T @ optimal_lagrange_multipliers_col
-    posterior_exponent = np.clip(posterior_exponent, -700.0, 700.0)
-    q_posterior = np.exp(posterior_exponent)
+        total_prob = float(np.sum(q_posterior))
+        if not np.isfinite(total_prob) or total_prob <= 0.0:
+            failure = failure or "posterior probabilities could not be normalised."
+            continue
+        q_posterior /= total_prob
 
-    if not np.all(np.isfinite(q_posterior)):
-        raise RuntimeError("Entropy pooling produced non-finite posterior probabilities.")
+        gap = (current_lhs @ q_posterior - current_rhs_stacked).ravel() / row_scale
+        gap[:num_equalities] = np.abs(gap[:num_equalities])
+        if not np.all(gap <= _VIEW_TOLERANCE):
+            failure = failure or "the views cannot be satisfied."
+            continue
+        return q_posterior
 
-    q_posterior = np.clip(q_posterior, 0.0, None)
-    total_prob = float(np.sum(q_posterior))
-    if not np.isfinite(total_prob) or total_prob <= 0.0:
-        raise RuntimeError("Entropy pooling posterior probabilities could not be normalised.")
-    q_posterior /= total_prob
+    raise RuntimeError(f"Entropy pooling optimisation failed {failure}")
 
-    return q_posterior
 
 class FlexibleViewsProcessor:
     r"""Entropy-pooling engine with fully flexible moment views.
-- 
2.43.0


From c55f59ab1dff6e76b850172434ec8e8c238151e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 022/117] fix: find the closest attainable tail for CVaR views

---
 pyvallocation/views.py | 125 +++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 72 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index ef8d1ab..a14af2a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -870,12 +870,11 @@ class FlexibleViewsProcessor:
         other_b: List[float] = None,
         other_G: List[np.ndarray] = None,
         other_h: List[float] = None,
-        max_newton_iter: int = 20,
-    ) -> np.ndarray:
+    ) -> Tuple[np.ndarray, List[np.ndarray], List[float]]:
         """Solve CVaR view via Meucci (2011) recursive EP (Eqs 9-15).
 
         For a view E[X | X <= VaR_gamma] = cvar_target, we search over
-        possible VaR thresholds (index s) using Newton-Raphson on the
+        possible VaR thresholds (index s) for the lowest point of the
         relative entropy profile.
 
         Args:
@@ -885,10 +884,10 @@ class FlexibleViewsProcessor:
             prior_probs: Current prior probability vector (S, 1).
             other_A, other_b: Additional equality constraints.
             other_G, other_h: Additional inequality constraints.
-            max_newton_iter: Maximum Newton-Raphson iterations.
 
         Returns:
-            np.ndarray: Posterior probability vector (S, 1).
+            Tuple: Posterior probability vector (S, 1) and the equality rows and
+            targets expressing the view.
         """
         R = self.R
         x = R[:, asset_idx]  # marginal scenarios for this asset
@@ -900,45 +899,40 @@ class FlexibleViewsProcessor:
         x_sorted = x[order]
         p_sorted = p[order]
 
-        # Initialize s_bar from prior: find s where cumulative prob first reaches gamma
+        if not 0.0 < gamma < 1.0 or not np.isfinite(cvar_target):
+            raise ValueError("CVaR views need a finite target and a tail probability in (0, 1).")
+
+        if S < 2 or not x_sorted[0] <= cvar_target <= x_sorted[S - 2]:
+            raise RuntimeError(f"CVaR view on asset {asset_idx} is not attainable by any tail of scenarios.")
+
+        # Initialize s_bar from prior: find s where cumulative prob first reaches gamma.
+        # A tail whose mean is the target must reach beyond it.
         cum_p = np.cumsum(p_sorted)
         s_bar = int(np.searchsorted(cum_p, gamma, side='left'))
-        s_bar = max(1, min(s_bar, S - 1))
+        s_bar = max(s_bar, int(np.searchsorted(x_sorted, cvar_target, side='right')))
+        s_bar = max(0, min(s_bar, S - 2))
+
+        solved = {}
 
         def _solve_for_s(s):
             """Solve EP with VaR at index s (Eq 9-10)."""
-            # Constraints: sum(q_1..q_s * x_1..x_s) = gamma * cvar_target
-            #              sum(q_1..q_s) = gamma
-            A_cvar = []
-            b_cvar = []
-
-            # Constraint 1: sum of tail probs = gamma
-            row_sum = np.zeros(S)
-            row_sum[:s + 1] = 1.0
-            A_cvar.append(row_sum[np.argsort(order)])  # unsort back to original order
-            b_cvar.append(gamma)
-
-            # Constraint 2: weighted tail mean = gamma * cvar_target
-            row_mean = np.zeros(S)
-            row_mean[:s + 1] = x_sorted[:s + 1]
-            A_cvar.append(row_mean[np.argsort(order)])  # unsort
-            b_cvar.append(gamma * cvar_target)
-
-            # Normalization: sum(q) = 1
-            A_cvar.append(np.ones(S))
-            b_cvar.append(1.0)
-
-            # Combine with other constraints
-            all_A = list(other_A or []) + A_cvar
-            all_b = list(other_b or []) + b_cvar
+            if s in solved:
+                return solved[s]
+
+            tail = np.zeros(S)
+            tail[order[:s + 1]] = 1.0
+
+            # Constraints: tail probability, tail mean and normalization
+            all_A = list(other_A or []) + [tail, tail * x, np.ones(S)]
+            all_b = list(other_b or []) + [gamma, gamma * cvar_target, 1.0]
             all_G = list(other_G or [])
             all_h = list(other_h or [])
 
             try:
                 q = entropy_pooling(
-                    prior_probs.flatten(),
-                    A=np.vstack(all_A) if all_A else None,
-                    b=np.array(all_b) if all_b else None,
+                    p,
+                    A=np.vstack(all_A),
+                    b=np.array(all_b),
                     G=np.vstack(all_G) if all_G else None,
                     h=np.array(all_h) if all_h else None,
                 )
@@ -946,48 +940,35 @@ class FlexibleViewsProcessor:
                 q_flat = q.flatten()
                 mask = q_flat > 0
                 kl = float(np.sum(q_flat[mask] * np.log(q_flat[mask] / p[mask])))
-                return q, kl
-            except Exception:
-                return None, np.inf
-
-        # Newton-Raphson search (Eqs 12-15)
+                solved[s] = q, kl
+            except (RuntimeError, ValueError):
+                solved[s] = None, np.inf
+            return solved[s]
+
+        # Descend the relative-entropy profile from s_bar, doubling the step while it
+        # improves and halving it otherwise (E(s) is infinite where the tail cannot
+        # attain the target, so differences of E are not always available).
         s = s_bar
-        best_q, best_kl = _solve_for_s(s)
-
-        for _ in range(max_newton_iter):
-            # Compute D(s) = E(s+1) - E(s) and D2(s) = D(s+1) - D(s)
-            s_lo = max(1, s - 1)
-            s_hi = min(S - 2, s + 1)
-
-            _, kl_lo = _solve_for_s(s_lo)
-            _, kl_mid = _solve_for_s(s)
-            _, kl_hi = _solve_for_s(s_hi)
-
-            d1 = kl_hi - kl_mid  # first difference
-            d2 = (kl_hi - 2 * kl_mid + kl_lo)  # second difference
-
-            if abs(d2) < 1e-14:
-                break
-
-            ratio = d1 / d2
-            if not np.isfinite(ratio):
-                break
-
-            s_new = int(round(s - ratio))
-            s_new = max(1, min(s_new, S - 2))
-
-            if s_new == s:
-                break
-
-            s = s_new
-            q_new, kl_new = _solve_for_s(s)
-            if q_new is not None and kl_new < best_kl:
-                best_q, best_kl = q_new, kl_new
+        step = 1
+        while not np.isfinite(_solve_for_s(s)[1]) and step < S:
+            s = min((max(0, s_bar - step), min(S - 2, s_bar + step)), key=lambda k: _solve_for_s(k)[1])
+            step *= 2
+        step = 1
+        while step >= 1:
+            s_new = min((max(0, s - step), min(S - 2, s + step)), key=lambda k: _solve_for_s(k)[1])
+            if _solve_for_s(s_new)[1] < _solve_for_s(s)[1]:
+                s = s_new
+                step *= 2
+            else:
+                step //= 2
 
+        best_q = _solve_for_s(s)[0]
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
-        return best_q.reshape(-1, 1)
+        tail = np.zeros(S)
+        tail[order[:s + 1]] = 1.0
+        return best_q.reshape(-1, 1), [tail, tail * x], [gamma, gamma * cvar_target]
 
     def _compute_posterior_probabilities(self) -> np.ndarray:
         """
@@ -1127,7 +1108,7 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
-                q_result = self._solve_cvar_view(
+                q_result, _, _ = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
                     prior_probs=q_result,
                 )
-- 
2.43.0


From 3becaa519e16484b076a1c4277a966284ca5cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 023/117] fix: keep the views already imposed when later ones
 are processed

---
 pyvallocation/views.py | 108 ++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 51 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index a14af2a..3ca82d8 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -970,6 +970,35 @@ class FlexibleViewsProcessor:
         tail[order[:s + 1]] = 1.0
         return best_q.reshape(-1, 1), [tail, tail * x], [gamma, gamma * cvar_target]
 
+    def _quantile_constraints(
+        self,
+    ) -> Tuple[List[np.ndarray], List[float], List[np.ndarray], List[float]]:
+        """Translate quantile (VaR) views ``P(R_i <= level) {op} probability`` into constraint lists."""
+        A_q, b_q, G_q, h_q = [], [], [], []
+        for asset, spec in self.quantile_views.items():
+            idx = self._asset_idx(asset)
+            if isinstance(spec, (list, tuple)) and len(spec) == 2:
+                level, prob_spec = float(spec[0]), spec[1]
+            else:
+                raise ValueError(
+                    f"quantile_views['{asset}'] must be (level, probability) "
+                    f"or (level, at_most(p)) / (level, at_least(p))."
+                )
+            indicator = (self.R[:, idx] <= level).astype(float)
+            for op, prob in self._parse_view_specs(prob_spec):
+                if not 0.0 < prob < 1.0:
+                    raise ValueError(f"Quantile probability for '{asset}' must be in (0, 1), got {prob}.")
+                if op == "==":
+                    A_q.append(indicator)
+                    b_q.append(prob)
+                elif op in ("<=", "<"):
+                    G_q.append(indicator)
+                    h_q.append(prob)
+                else:  # >= or >
+                    G_q.append(-indicator)
+                    h_q.append(-prob)
+        return A_q, b_q, G_q, h_q
+
     def _compute_posterior_probabilities(self) -> np.ndarray:
         """
         The core Entropy Pooling (EP) logic. This method orchestrates the application
@@ -1003,11 +1032,8 @@ class FlexibleViewsProcessor:
                 np.ndarray: Posterior probability vector.
             """
             S = R.shape[0]
-            A_eq_list.append(np.ones(S))
-            b_eq_list.append(1.0)
-
-            A = np.vstack(A_eq_list) if A_eq_list else np.zeros((0, S))
-            b = np.array(b_eq_list, float).reshape(-1, 1) if b_eq_list else np.zeros((0, 1))
+            A = np.vstack(A_eq_list + [np.ones(S)])
+            b = np.array(b_eq_list + [1.0], float).reshape(-1, 1)
 
             if G_ineq_list:
                 G = np.vstack(G_ineq_list)
@@ -1017,6 +1043,16 @@ class FlexibleViewsProcessor:
 
             return entropy_pooling(prior_probs, A, b, G, h)
 
+        # Constraints (A_eq, b_eq, G, h) imposed so far: later stages must keep them.
+        kept = ([], [], [], [])
+
+        def impose(prior_probs, *constraint_sets):
+            """Solve entropy pooling adding ``constraint_sets`` to the ones already imposed."""
+            for constraints in constraint_sets:
+                for stored, added in zip(kept, constraints):
+                    stored.extend(added)
+            return do_ep(prior_probs, *kept) if any(kept) else prior_probs
+
         has_any = any((self.mean_views, self.vol_views, self.var_views,
                        self.skew_views, self.corr_views, self.cvar_views,
                        self.quantile_views))
@@ -1035,13 +1071,15 @@ class FlexibleViewsProcessor:
 
             for mtype, vd in view_blocks:
                 if vd:
-                    Aeq, beq, G, h = self._build_constraints(vd, mtype, mu_cur, var_cur)
-                    q_result = do_ep(q_result, Aeq, beq, G, h)
+                    q_result = impose(
+                        q_result, self._build_constraints(vd, mtype, mu_cur, var_cur))
 
                     mu_cur = (R.T @ q_result).flatten()
                     var_cur = ((R - mu_cur) ** 2).T @ q_result
                     var_cur = var_cur.flatten()
 
+            q_result = impose(q_result, self._quantile_constraints())
+
         else:
             # Two-pass when mean views coexist with higher-order views:
             # solve EP for means first to update the linearization point,
@@ -1054,49 +1092,14 @@ class FlexibleViewsProcessor:
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
 
-            A_all, b_all, G_all, h_all = [], [], [], []
-            for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
-                               ("var", self.var_views), ("skew", self.skew_views),
-                               ("corr", self.corr_views)]:
-                if vd:
-                    Aeq, beq, G, h = self._build_constraints(vd, mtype, mu_cur, var_cur)
-                    A_all.extend(Aeq)
-                    b_all.extend(beq)
-                    G_all.extend(G)
-                    h_all.extend(h)
-
-            if A_all or G_all:
-                q_result = do_ep(p0, A_all, b_all, G_all, h_all)
-            else:
-                q_result = p0
-
-        # --- Quantile (VaR) views: P(R_i <= level) {op} probability ---
-        if self.quantile_views:
-            A_q, b_q, G_q, h_q = [], [], [], []
-            for asset, spec in self.quantile_views.items():
-                idx = self._asset_idx(asset)
-                if isinstance(spec, (list, tuple)) and len(spec) == 2:
-                    level, prob_spec = float(spec[0]), spec[1]
-                else:
-                    raise ValueError(
-                        f"quantile_views['{asset}'] must be (level, probability) "
-                        f"or (level, at_most(p)) / (level, at_least(p))."
-                    )
-                indicator = (R[:, idx] <= level).astype(float)
-                for op, prob in self._parse_view_specs(prob_spec):
-                    if not 0.0 < prob < 1.0:
-                        raise ValueError(f"Quantile probability for '{asset}' must be in (0, 1), got {prob}.")
-                    if op == "==":
-                        A_q.append(indicator)
-                        b_q.append(prob)
-                    elif op in ("<=", "<"):
-                        G_q.append(indicator)
-                        h_q.append(prob)
-                    else:  # >= or >
-                        G_q.append(-indicator)
-                        h_q.append(-prob)
-            if A_q or G_q:
-                q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+            q_result = impose(
+                p0,
+                *(self._build_constraints(vd, mtype, mu_cur, var_cur)
+                  for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
+                                    ("var", self.var_views), ("skew", self.skew_views),
+                                    ("corr", self.corr_views)]),
+                self._quantile_constraints(),
+            )
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
@@ -1108,10 +1111,13 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
-                q_result, _, _ = self._solve_cvar_view(
+                q_result, rows, targets = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
                     prior_probs=q_result,
+                    other_A=kept[0], other_b=kept[1], other_G=kept[2], other_h=kept[3],
                 )
+                kept[0].extend(rows)
+                kept[1].extend(targets)
 
         return q_result
 
-- 
2.43.0


From 45bbd27c8dcfc4793261de1dd207710dd90d4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 024/117] fix: keep rank views next to mean views and leave the
 caller's views unchanged

---
 pyvallocation/views.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 3ca82d8..ab54f04 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -616,13 +616,12 @@ class FlexibleViewsProcessor:
         self.quantile_views = _vec_to_dict(quantile_views, "quantile_views") if quantile_views else {}
 
         # rank_mean: expand ["A", "B", "C"] into pairwise E[A] >= E[B], E[B] >= E[C]
+        self.rank_views = {}
         if rank_mean is not None:
             if len(rank_mean) < 2:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
             for i in range(len(rank_mean) - 1):
-                pair = (rank_mean[i], rank_mean[i + 1])
-                if pair not in self.mean_views:
-                    self.mean_views[pair] = (">=", 0.0)
+                self.rank_views[(rank_mean[i], rank_mean[i + 1])] = (">=", 0.0)
 
         self.sequential = bool(sequential)
 
@@ -1053,7 +1052,7 @@ class FlexibleViewsProcessor:
                     stored.extend(added)
             return do_ep(prior_probs, *kept) if any(kept) else prior_probs
 
-        has_any = any((self.mean_views, self.vol_views, self.var_views,
+        has_any = any((self.mean_views, self.rank_views, self.vol_views, self.var_views,
                        self.skew_views, self.corr_views, self.cvar_views,
                        self.quantile_views))
         if not has_any:
@@ -1063,6 +1062,7 @@ class FlexibleViewsProcessor:
             q_result = p0
             view_blocks = [
                 ("mean", self.mean_views),
+                ("mean", self.rank_views),
                 ("vol", self.vol_views),
                 ("var", self.var_views),
                 ("skew", self.skew_views),
@@ -1085,17 +1085,20 @@ class FlexibleViewsProcessor:
             # solve EP for means first to update the linearization point,
             # then build ALL constraints at the updated operating point.
             has_higher = bool(self.vol_views or self.var_views or self.skew_views or self.corr_views)
-            if self.mean_views and has_higher:
+            if (self.mean_views or self.rank_views) and has_higher:
                 Aeq_m, beq_m, Gm, hm = self._build_constraints(
                     self.mean_views, "mean", mu_cur, var_cur)
-                q_mid = do_ep(p0, Aeq_m, beq_m, Gm, hm)
+                _, _, G_rank, h_rank = self._build_constraints(
+                    self.rank_views, "mean", mu_cur, var_cur)
+                q_mid = do_ep(p0, Aeq_m, beq_m, Gm + G_rank, hm + h_rank)
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
 
             q_result = impose(
                 p0,
                 *(self._build_constraints(vd, mtype, mu_cur, var_cur)
-                  for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
+                  for mtype, vd in [("mean", self.mean_views), ("mean", self.rank_views),
+                                    ("vol", self.vol_views),
                                     ("var", self.var_views), ("skew", self.skew_views),
                                     ("corr", self.corr_views)]),
                 self._quantile_constraints(),
-- 
2.43.0


From 3511e072c2adf2c3e0bdf16672b8e721abc63b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 025/117] fix: support a single risk driver in
 FlexibleViewsProcessor

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index ab54f04..20e78c8 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -582,7 +582,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -629,7 +629,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From d5b250108ad0c2ec37897d4a99f877f6e009b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 026/117] fix: match labelled view vectors and prior
 covariances by asset name

---
 pyvallocation/views.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 20e78c8..cc09c34 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -541,10 +541,15 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
-                cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
                     self._use_pandas = True
+                if isinstance(prior_cov.index, pd.RangeIndex) and isinstance(prior_cov.columns, pd.RangeIndex):
+                    cov = prior_cov.values.astype(float)
+                elif set(prior_cov.index) != set(self.assets) or set(prior_cov.columns) != set(self.assets):
+                    raise ValueError("`prior_cov` labels must match the assets of `prior_mean`.")
+                else:
+                    cov = prior_cov.loc[self.assets, self.assets].values.astype(float)
             else:
                 cov = np.asarray(prior_cov, float)
 
@@ -599,6 +604,8 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if isinstance(vec_like, pd.Series) and self._use_pandas and not isinstance(vec_like.index, pd.RangeIndex):
+                return dict(vec_like.items())
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From 105dd3942bdf174c40ffbd51bec24f0f8aea8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 027/117] fix: do not normalise the caller's market weights in
 place

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index cc09c34..1d392ff 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1356,7 +1356,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 7fe082ebd272720ad8fe72c8f941f5394062a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 028/117] fix: match labelled Black-Litterman inputs by asset
 name

---
 pyvallocation/views.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 1d392ff..212a01c 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1336,9 +1336,21 @@ class BlackLittermanProcessor:
             if self._is_pandas
             else list(range(np.asarray(prior_cov).shape[0]))
         )
+        if self._is_pandas:
+            if set(prior_cov.columns) != set(self._assets):
+                raise ValueError("prior_cov rows and columns must carry the same labels.")
+            prior_cov = prior_cov.loc[:, self._assets]
         self._sigma: np.ndarray = np.asarray(prior_cov, dtype=float)
         n_assets: int = self._sigma.shape[0]
 
+        def _by_asset(values, name):
+            """Order labelled inputs like the assets of ``prior_cov``."""
+            if not self._is_pandas or not isinstance(values, pd.Series) or isinstance(values.index, pd.RangeIndex):
+                return values
+            if len(values) != n_assets or set(values.index) != set(self._assets):
+                raise ValueError(f"{name} labels must match the assets of prior_cov.")
+            return values.loc[self._assets]
+
         if self._sigma.shape != (n_assets, n_assets):
             raise ValueError("prior_cov must be square (N, N).")
         if not np.allclose(self._sigma, self._sigma.T, atol=1e-8):
@@ -1350,17 +1362,17 @@ class BlackLittermanProcessor:
         self._tau: float = float(tau)
 
         if pi is not None:
-            self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
+            self._pi = np.asarray(_by_asset(pi, "pi"), dtype=float).reshape(-1, 1)
             src = "user \\pi"
         elif market_weights is not None:
-            weights = np.asarray(market_weights, dtype=float).ravel()
+            weights = np.asarray(_by_asset(market_weights, "market_weights"), dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
             weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-            self._pi = np.asarray(prior_mean, dtype=float).reshape(-1, 1)
+            self._pi = np.asarray(_by_asset(prior_mean, "prior_mean"), dtype=float).reshape(-1, 1)
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
@@ -1380,6 +1392,8 @@ class BlackLittermanProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            if isinstance(vec_like, pd.Series) and self._is_pandas and not isinstance(vec_like.index, pd.RangeIndex):
+                return dict(vec_like.items())
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != n_assets:
                 raise ValueError(f"`mean_views` must have length {n_assets}.")
-- 
2.43.0


From f683563ce6e29bbd30e8f04b0899aafeb8154d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 029/117] fix: accept the documented 'A,B' confidence keys of
 relative views

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 212a01c..5fa439f 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1513,6 +1513,8 @@ class BlackLittermanProcessor:
         if isinstance(conf, dict):
             result = []
             for k in keys:
+                if k not in conf and isinstance(k, tuple) and ",".join(map(str, k)) in conf:
+                    k = ",".join(map(str, k))
                 if k not in conf:
                     logging.getLogger(__name__).warning(
                         "No confidence found for view key %r; defaulting to 1.0. "
-- 
2.43.0


From ae642d8d6aabeda23e588d93ec5f2e5bde1f2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 030/117] fix: accept entropy-pooling solutions by their
 optimality conditions

---
 pyvallocation/views.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 5fa439f..629d07a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -267,31 +267,34 @@ def entropy_pooling(
     row_scale = np.maximum(np.max(np.abs(current_lhs), axis=1), np.finfo(float).tiny)
 
     failure = ""
-    # The dual is unbounded when the views cannot be satisfied, and either method may
-    # stall on it or report convergence far from it: only a posterior that satisfies
-    # the views is ever returned.
-    for current_method in (opt_method, "L-BFGS-B" if opt_method == "TNC" else "TNC"):
+    start = np.zeros(current_lhs.shape[0])
+    other_method = "L-BFGS-B" if opt_method == "TNC" else "TNC"
+    # Either method may stall short of the optimum (or at it), and the dual is unbounded
+    # when the views cannot be satisfied. Whatever the reported status, a posterior is
+    # returned if and only if it satisfies the views, with multipliers on binding
+    # inequalities only: that is the optimality condition of the problem.
+    for current_method in (opt_method, other_method, opt_method, other_method):
         solver_options = {"maxfun": 10000}
         if current_method == "L-BFGS-B":
             solver_options["maxiter"] = 1000
 
         solution = minimize(
             _entropy_pooling_dual_objective,
-            x0=np.zeros(current_lhs.shape[0]),
+            x0=start,
             args=(log_p_col, current_lhs, current_rhs_stacked.squeeze()),
             method=current_method,
             jac=True,
             bounds=optimizer_bounds,
             options=solver_options,
         )
+        start = solution.x if np.all(np.isfinite(solution.x)) else np.zeros(current_lhs.shape[0])
 
-        if not solution.success:
+        if not failure and not solution.success:
             status = getattr(solution, "status", None)
             message = getattr(solution, "message", "")
-            failure = failure or f"(status={status}): {message}"
-            continue
+            failure = f"(status={status}): {message}"
 
-        optimal_lagrange_multipliers_col = solution.x[:, np.newaxis]
+        optimal_lagrange_multipliers_col = start[:, np.newaxis]
 
         with np.errstate(over="ignore", under="ignore", invalid="ignore", divide="ignore"):
             posterior_exponent = log_p_col - 1.0 - current_lhs.T @ optimal_lagrange_multipliers_col
@@ -299,18 +302,20 @@ def entropy_pooling(
 
         total_prob = float(np.sum(q_posterior))
         if not np.isfinite(total_prob) or total_prob <= 0.0:
-            failure = failure or "posterior probabilities could not be normalised."
             continue
         q_posterior /= total_prob
 
         gap = (current_lhs @ q_posterior - current_rhs_stacked).ravel() / row_scale
         gap[:num_equalities] = np.abs(gap[:num_equalities])
-        if not np.all(gap <= _VIEW_TOLERANCE):
-            failure = failure or "the views cannot be satisfied."
-            continue
-        return q_posterior
-
-    raise RuntimeError(f"Entropy pooling optimisation failed {failure}")
+        slack_cost = np.abs(gap * start * row_scale)[num_equalities:]
+        if np.all(gap <= _VIEW_TOLERANCE) and np.all(slack_cost <= _VIEW_TOLERANCE):
+            return q_posterior
+        if solution.nfev >= solver_options["maxfun"]:
+            break
+
+    raise RuntimeError(
+        f"Entropy pooling optimisation failed {failure or '(the views cannot be satisfied)'}"
+    )
 
 
 class FlexibleViewsProcessor:
-- 
2.43.0


From 328fdab31c36cc0f37b46410379f8b5439d3939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 031/117] fix: impose rank views together with the mean views

---
 pyvallocation/views.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 629d07a..a776fdd 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -608,7 +608,7 @@ class FlexibleViewsProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)
             if isinstance(vec_like, pd.Series) and self._use_pandas and not isinstance(vec_like.index, pd.RangeIndex):
                 return dict(vec_like.items())
             vec = np.asarray(vec_like, float).ravel()
@@ -628,12 +628,15 @@ class FlexibleViewsProcessor:
         self.quantile_views = _vec_to_dict(quantile_views, "quantile_views") if quantile_views else {}
 
         # rank_mean: expand ["A", "B", "C"] into pairwise E[A] >= E[B], E[B] >= E[C]
-        self.rank_views = {}
         if rank_mean is not None:
             if len(rank_mean) < 2:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
             for i in range(len(rank_mean) - 1):
-                self.rank_views[(rank_mean[i], rank_mean[i + 1])] = (">=", 0.0)
+                pair = (rank_mean[i], rank_mean[i + 1])
+                views = [(">=", 0.0)]
+                if pair in self.mean_views:
+                    views = self._parse_view_specs(self.mean_views[pair]) + views
+                self.mean_views[pair] = views
 
         self.sequential = bool(sequential)
 
@@ -687,8 +690,8 @@ class FlexibleViewsProcessor:
     def _parse_view_specs(v: Any) -> List[Tuple[str, float]]:
         """Convert a view value into a list of ``(operator, target)`` pairs.
 
-        Handles all formats accepted by :meth:`_parse_view` plus the
-        ``between(lo, hi)`` range syntax, which expands to two constraints.
+        Handles all formats accepted by :meth:`_parse_view`, the ``between(lo, hi)``
+        range syntax, which expands to two constraints, and lists of such tuples.
         """
         if (
             isinstance(v, (list, tuple))
@@ -696,9 +699,11 @@ class FlexibleViewsProcessor:
             and v[0] == "between"
         ):
             lo, hi = float(v[1]), float(v[2])
-            if lo > hi:
-                raise ValueError(f"between({lo}, {hi}): lower bound exceeds upper bound.")
+            if not lo <= hi or not np.isfinite([lo, hi]).all():
+                raise ValueError(f"between({lo}, {hi}): bounds must be finite and in increasing order.")
             return [(">=", lo), ("<=", hi)]
+        if isinstance(v, list) and v and all(isinstance(item, tuple) for item in v):
+            return [pair for item in v for pair in FlexibleViewsProcessor._parse_view_specs(item)]
         op, tgt = FlexibleViewsProcessor._parse_view(v)
         return [(op, tgt)]
 
@@ -1064,7 +1069,7 @@ class FlexibleViewsProcessor:
                     stored.extend(added)
             return do_ep(prior_probs, *kept) if any(kept) else prior_probs
 
-        has_any = any((self.mean_views, self.rank_views, self.vol_views, self.var_views,
+        has_any = any((self.mean_views, self.vol_views, self.var_views,
                        self.skew_views, self.corr_views, self.cvar_views,
                        self.quantile_views))
         if not has_any:
@@ -1074,7 +1079,6 @@ class FlexibleViewsProcessor:
             q_result = p0
             view_blocks = [
                 ("mean", self.mean_views),
-                ("mean", self.rank_views),
                 ("vol", self.vol_views),
                 ("var", self.var_views),
                 ("skew", self.skew_views),
@@ -1097,20 +1101,17 @@ class FlexibleViewsProcessor:
             # solve EP for means first to update the linearization point,
             # then build ALL constraints at the updated operating point.
             has_higher = bool(self.vol_views or self.var_views or self.skew_views or self.corr_views)
-            if (self.mean_views or self.rank_views) and has_higher:
+            if self.mean_views and has_higher:
                 Aeq_m, beq_m, Gm, hm = self._build_constraints(
                     self.mean_views, "mean", mu_cur, var_cur)
-                _, _, G_rank, h_rank = self._build_constraints(
-                    self.rank_views, "mean", mu_cur, var_cur)
-                q_mid = do_ep(p0, Aeq_m, beq_m, Gm + G_rank, hm + h_rank)
+                q_mid = do_ep(p0, Aeq_m, beq_m, Gm, hm)
                 mu_cur = (R.T @ q_mid).flatten()
                 var_cur = (((R - mu_cur) ** 2).T @ q_mid).flatten()
 
             q_result = impose(
                 p0,
                 *(self._build_constraints(vd, mtype, mu_cur, var_cur)
-                  for mtype, vd in [("mean", self.mean_views), ("mean", self.rank_views),
-                                    ("vol", self.vol_views),
+                  for mtype, vd in [("mean", self.mean_views), ("vol", self.vol_views),
                                     ("var", self.var_views), ("skew", self.skew_views),
                                     ("corr", self.corr_views)]),
                 self._quantile_constraints(),
-- 
2.43.0


From 9f90b92aca14a60970c55c586e87bce20ac838bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 032/117] fix: match labelled scenario probabilities to
 scenarios by label

---
 pyvallocation/moments.py           |  9 +++++----
 pyvallocation/portfolioapi.py      |  3 ++-
 pyvallocation/probabilities.py     | 29 +++++++++++++++++++++++++++++
 pyvallocation/stress.py            |  7 ++++---
 pyvallocation/utils/functions.py   |  6 ++++--
 pyvallocation/utils/performance.py |  3 ++-
 pyvallocation/utils/projection.py  |  6 ++++--
 pyvallocation/views.py             |  4 ++--
 8 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..60a2a73 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -123,6 +123,7 @@ from typing import Any, Dict, Optional, Sequence, Tuple, Union
 import numpy as np
 from numpy.linalg import LinAlgError, inv
 
+from pyvallocation.probabilities import align_probabilities
 from pyvallocation.utils.validation import (
     check_non_negativity,
     check_weights_sum_to_one,
@@ -203,16 +204,16 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     Returns:
         Tuple[ArrayLike, ArrayLike]: A tuple containing:
             -   **mu** (ArrayLike): The weighted mean vector of asset returns.
-                If `R` or `p` were pandas objects, `mu` will be a :class:`pandas.Series`.
+                If `R` is a pandas object, `mu` will be a :class:`pandas.Series`.
             -   **S** (ArrayLike): The weighted covariance matrix of asset returns.
-                If `R` or `p` were pandas objects, `S` will be a :class:`pandas.DataFrame`.
+                If `R` is a pandas object, `S` will be a :class:`pandas.DataFrame`.
 
     Raises:
         ValueError: If `p` has a length mismatch with `R`, or if `p` contains
             negative values or does not sum to one.
     """
     R_arr = np.asarray(R, dtype=float)
-    p_arr = np.asarray(p, dtype=float).reshape(-1)
+    p_arr = np.asarray(align_probabilities(p, R), dtype=float).reshape(-1)
     T, N = R_arr.shape
 
     if p_arr.shape[0] != T:
@@ -231,7 +232,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index a47929e..a8b8d42 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -21,7 +21,7 @@ from .optimization import (
     RelaxedRiskParityResult,
     RobustOptimizer,
 )
-from .probabilities import generate_uniform_probabilities
+from .probabilities import align_probabilities, generate_uniform_probabilities
 from .utils.functions import portfolio_cvar
 from .utils.weights import wrap_exposure_vector
 
@@ -121,6 +121,7 @@ class AssetsDistribution:
         elif cov is not None:
             cov = np.asarray(cov, dtype=float)
 
+        probs = align_probabilities(probs, scenarios)
         if isinstance(scenarios, pd.DataFrame):
             asset_names = _merge_names(asset_names, scenarios.columns)
             scenarios = scenarios.to_numpy(dtype=float)
diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 57cb209..264177f 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Optional, Sequence, Union
 import numpy as np
+import pandas as pd
 
 logger = logging.getLogger(__name__)
 
@@ -45,6 +46,34 @@ def normalize_probability_vector(
     return probs
 
 
+def align_probabilities(probabilities, scenarios, name: str = "probabilities"):
+    """
+    Order labelled per-scenario values like labelled scenarios.
+
+    Args:
+        probabilities: Per-scenario values. Unlabelled inputs are positional.
+        scenarios: Scenario set the values refer to.
+        name: Identifier used in error messages. Defaults to ``"probabilities"``.
+
+    Returns:
+        The values in the order of ``scenarios``. Default (``RangeIndex``) labels are
+        positional unless both sides carry the same set of labels.
+
+    Raises:
+        ValueError: If both sides are labelled and the labels do not match.
+    """
+    if not isinstance(probabilities, pd.Series) or not isinstance(scenarios, (pd.Series, pd.DataFrame)):
+        return probabilities
+    index, target = probabilities.index, scenarios.index
+    if index.equals(target):
+        return probabilities
+    if index.is_unique and target.is_unique and len(index) == len(target) and index.isin(target).all():
+        return probabilities.reindex(target)
+    if isinstance(index, pd.RangeIndex) or isinstance(target, pd.RangeIndex):
+        return probabilities
+    raise ValueError(f"{name} labels must match the scenario labels.")
+
+
 def resolve_probabilities(
     probabilities: Optional[ProbabilityLike],
     n_observations: int,
diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 8090ea6..db265fc 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -10,6 +10,7 @@ import pandas as pd
 
 from .moments import estimate_sample_moments
 from .probabilities import (
+    align_probabilities,
     compute_effective_number_scenarios,
     generate_exp_decay_probabilities,
     generate_gaussian_kernel_probabilities,
@@ -164,7 +165,7 @@ def stress_test(
         raise ValueError("`scenarios` must be a 2D array-like.")
 
     n_scenarios, n_assets = R_arr.shape
-    p_nom = resolve_probabilities(probabilities, n_scenarios)
+    p_nom = resolve_probabilities(align_probabilities(probabilities, scenarios), n_scenarios)
     W, aligned_assets, portfolio_names = _align_weights(weights, asset_names)
     if W.shape[0] != n_assets:
         raise ValueError("Weight dimension does not match number of assets in `scenarios`.")
@@ -213,7 +214,7 @@ def stress_test(
     if stressed_probabilities is not None or transform is not None:
         p_star = (
             resolve_probabilities(
-                stressed_probabilities,
+                align_probabilities(stressed_probabilities, scenarios, "stressed_probabilities"),
                 n_scenarios,
                 name="stressed_probabilities",
             )
@@ -319,7 +320,7 @@ def kernel_focus_stress(
         >>> vol_proxy = np.array([0.10, 0.15, 0.30])  # e.g. rolling volatility
         >>> df = kernel_focus_stress([0.5, 0.5], returns, focus_series=vol_proxy, target=0.30)
     """
-    v = np.asarray(focus_series, dtype=float).reshape(-1)
+    v = np.asarray(align_probabilities(focus_series, scenarios, "focus_series"), dtype=float).reshape(-1)
     if v.shape[0] != np.asarray(scenarios, dtype=float).shape[0]:
         raise ValueError("`focus_series` length must match the number of scenarios.")
     p_star = generate_gaussian_kernel_probabilities(v, h=bandwidth, x_T=target)
diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index e26a788..501e491 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,6 +4,8 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
+from ..probabilities import align_probabilities
+
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
 
@@ -93,7 +95,7 @@ def portfolio_cvar(
     if isinstance(R, pd.DataFrame):
         w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(align_probabilities(p, R), dtype=float).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
@@ -157,7 +159,7 @@ def portfolio_var(
     if isinstance(R, pd.DataFrame):
         w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(align_probabilities(p, R), dtype=float).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 783ba20..5d71818 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -11,6 +11,7 @@ import pandas as pd
 
 from ..moments import estimate_sample_moments
 from ..probabilities import (
+    align_probabilities,
     compute_effective_number_scenarios,
     resolve_probabilities,
 )
@@ -152,7 +153,7 @@ def performance_report(
     if R_arr.ndim != 2:
         raise ValueError("`scenarios` must be a 2D array-like.")
 
-    p = resolve_probabilities(probabilities, R_arr.shape[0])
+    p = resolve_probabilities(align_probabilities(probabilities, scenarios), R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
         if asset_names is not None and list(weights.index) != asset_names:
diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..3da771f 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -4,6 +4,8 @@ from typing import Union
 import numpy as np
 import pandas as pd
 
+from ..probabilities import align_probabilities
+
 logger = logging.getLogger(__name__)
 
 
@@ -224,7 +226,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         raise ValueError("`R` must be a 1D or 2D array-like of scenarios.")
 
     num_rows = R_np.shape[0]
-    weights = np.asarray(p, dtype=float).reshape(-1) if p is not None else None
+    weights = np.asarray(align_probabilities(p, R, "p"), dtype=float).reshape(-1) if p is not None else None
     if weights is None:
         weights = np.full(num_rows, 1.0 / num_rows, dtype=float)
     else:
@@ -292,7 +294,7 @@ def simulate_paths(
         raise ValueError("`R` must be 1D or 2D.")
 
     T, N = R_np.shape
-    weights = np.asarray(p, dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
+    weights = np.asarray(align_probabilities(p, R, "p"), dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
     weights = weights / weights.sum()
 
     rng = np.random.default_rng(seed)
diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index a776fdd..57586bc 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -10,7 +10,7 @@ import pandas as pd
 from scipy.optimize import Bounds, minimize
 
 from .bayesian import _cholesky_pd
-from .probabilities import normalize_probability_vector
+from .probabilities import align_probabilities, normalize_probability_vector
 
 # ---------------------------------------------------------------------------
 # View helper functions — readable shortcuts for constraint operators
@@ -517,7 +517,7 @@ class FlexibleViewsProcessor:
                 self.p0 = np.full((S, 1), 1.0 / S)
             else:
                 p_array = normalize_probability_vector(
-                    prior_probabilities,
+                    align_probabilities(prior_probabilities, risk_drivers, "prior_probabilities"),
                     name="prior_probabilities",
                     strictly_positive=True,
                 )
-- 
2.43.0


From b70694fcb3095b047d6bf2bb25ca336ccd1e17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 033/117] fix: validate path probabilities and keep repriced
 path values

---
 pyvallocation/utils/projection.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 3da771f..4088cc7 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -4,7 +4,7 @@ from typing import Union
 import numpy as np
 import pandas as pd
 
-from ..probabilities import align_probabilities
+from ..probabilities import align_probabilities, resolve_probabilities
 
 logger = logging.getLogger(__name__)
 
@@ -294,8 +294,7 @@ def simulate_paths(
         raise ValueError("`R` must be 1D or 2D.")
 
     T, N = R_np.shape
-    weights = np.asarray(align_probabilities(p, R, "p"), dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
-    weights = weights / weights.sum()
+    weights = resolve_probabilities(align_probabilities(p, R, "p"), T, name="p")
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(T, size=(n_paths, horizon), p=weights)
@@ -304,10 +303,8 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty_like(cumulative)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        steps = [np.asarray(reprice(cumulative[:, t, :]), dtype=float) for t in range(horizon)]
+        return np.stack([step.reshape(n_paths, -1) for step in steps], axis=1)
 
     return cumulative
 
-- 
2.43.0


From 37f795440209e97ce99c64602c19e1f202337014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 034/117] fix: always normalise probability totals that are
 only close to one

---
 pyvallocation/probabilities.py    | 2 +-
 pyvallocation/utils/projection.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 264177f..4740105 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -41,7 +41,7 @@ def normalize_probability_vector(
     total = probs.sum()
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError(f"{name} must sum to a positive finite value.")
-    if not np.isclose(total, 1.0):
+    if total != 1.0:
         probs = probs / total
     return probs
 
diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 4088cc7..a16f44b 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -237,8 +237,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         weight_sum = weights.sum()
         if not np.isfinite(weight_sum) or weight_sum <= 0:
             raise ValueError("Scenario probabilities must sum to a positive finite value.")
-        if not np.isclose(weight_sum, 1.0):
-            weights = weights / weight_sum
+        weights = weights / weight_sum
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(num_rows, size=(n_simulations, investment_horizon), p=weights)
-- 
2.43.0


From 86bec94b64cfbcd07ea4b69e653198ff51881661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 035/117] fix: reject portfolio weights whose labels do not
 match the scenarios

---
 pyvallocation/utils/performance.py | 31 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 5d71818..8f0acc3 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -24,6 +24,15 @@ WeightsLike = Union[np.ndarray, pd.Series, pd.DataFrame]
 __all__ = ["scenario_pnl", "performance_report", "horizon_report", "drawdown_quantile"]
 
 
+def _match_assets(weights, columns):
+    """Reorder labelled weights to the scenario columns; labels must match exactly."""
+    if columns is None or list(weights.index) == list(columns):
+        return weights
+    if not weights.index.is_unique or len(weights) != len(columns) or set(weights.index) != set(columns):
+        raise ValueError("Weight labels do not match scenario asset names.")
+    return weights.reindex(columns)
+
+
 def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     """
     Compute scenario-by-scenario portfolio P&L.
@@ -65,12 +74,10 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
         weights = pd.Series(weights, dtype=float)
 
     if isinstance(weights, pd.Series):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _match_assets(weights, columns)
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _match_assets(weights, columns)
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
@@ -92,7 +99,7 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         series = pd.Series(pnl[:, 0], index=index, name=weights.name)
         return series
-    return pnl.squeeze()
+    return pnl[:, 0] if pnl.shape[1] == 1 else pnl
 
 
 def performance_report(
@@ -156,22 +163,12 @@ def performance_report(
     p = resolve_probabilities(align_probabilities(probabilities, scenarios), R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
-        if weights.isna().any():
-            raise ValueError(
-                "Weight labels do not match scenario asset names after reindexing."
-            )
+        weights = _match_assets(weights, asset_names)
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if weights.shape[1] != 1:
             raise ValueError("`weights` must represent a single allocation.")
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
-        if weights.isna().any().any():
-            raise ValueError(
-                "Weight labels do not match scenario asset names after reindexing."
-            )
+        weights = _match_assets(weights, asset_names)
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
-- 
2.43.0


From db8058f3135f198323d35fae89d37c68330a8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 036/117] fix: measure drawdowns from the initial wealth too

---
 pyvallocation/utils/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 8f0acc3..57eac52 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -303,7 +303,7 @@ def drawdown_quantile(
     wealth = 1.0 + port_cum  # wealth relative to $1
 
     # Running maximum and drawdown
-    running_max = np.maximum.accumulate(wealth, axis=1)
+    running_max = np.maximum(np.maximum.accumulate(wealth, axis=1), 1.0)  # paths start at $1
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
     max_dd = drawdowns.max(axis=1)  # (n_paths,)
 
-- 
2.43.0


From 680d85d8ba1e6368566cabe73f1dd0c4dcc0c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 037/117] fix: match labelled drawdown weights by asset name

---
 pyvallocation/utils/performance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 57eac52..0639ac0 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -289,6 +289,10 @@ def drawdown_quantile(
     """
     from .projection import simulate_paths, reprice_exp as _reprice_exp
 
+    if isinstance(weights, (pd.Series, pd.DataFrame)) and isinstance(invariants, pd.DataFrame):
+        # a custom repricer may return instruments named differently from the drivers
+        if reprice is None or set(weights.index) == set(invariants.columns):
+            weights = _match_assets(weights, list(invariants.columns))
     if reprice is None:
         reprice = _reprice_exp
 
-- 
2.43.0


From d79c21f5266cf39f8557f7209c3e05dbd61a6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 038/117] fix: reject non-finite weights in performance reports

---
 pyvallocation/utils/performance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 0639ac0..40667d4 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -181,6 +181,8 @@ def performance_report(
     if w.shape[0] != R_arr.shape[1]:
         raise ValueError("Weight dimension must match the number of assets.")
     w_vec = w.reshape(-1)
+    if not np.all(np.isfinite(w_vec)):
+        raise ValueError("`weights` must contain only finite values.")
 
     mu, cov = estimate_sample_moments(R_arr, p)
     mu_vec = np.asarray(mu, dtype=float).reshape(-1, 1)
-- 
2.43.0


From db3624846b335a16ff6dde58abf1417ba0e4c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 039/117] fix: report the exact relative entropy of stressed
 probabilities

---
 pyvallocation/stress.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index db265fc..c12b964 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -100,10 +100,9 @@ def _kl_divergence(p_star: np.ndarray, p_nom: np.ndarray) -> float:
     Returns:
         float: KL divergence value.
     """
-    eps = 1e-16
-    p1 = np.clip(p_star, eps, None)
-    p0 = np.clip(p_nom, eps, None)
-    return float(np.sum(p1 * np.log(p1 / p0)))
+    used = p_star > 0.0  # 0 log 0 = 0; infinite when a nominally impossible scenario is used
+    with np.errstate(divide="ignore"):
+        return float(np.sum(p_star[used] * np.log(p_star[used] / p_nom[used])))
 
 
 def stress_test(
-- 
2.43.0


From 85c4190c43a2a5cf19a3a13f55ee64b430924cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 040/117] fix: report every portfolio by name in invariant
 stress tests

---
 pyvallocation/stress.py | 53 ++++++++++-------------------------------
 1 file changed, 13 insertions(+), 40 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index c12b964..5a67a18 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -500,43 +500,16 @@ def stress_invariants(
         pnl_stressed = None
 
     # Wrap with instrument names and delegate to stress_test
-    if inst_names is not None:
-        pnl_df = pd.DataFrame(pnl_nom, columns=inst_names)
-    elif is_df:
-        pnl_df = pd.DataFrame(pnl_nom, columns=invariants.columns)
-    else:
-        pnl_df = pnl_nom
-
-    if pnl_stressed is not None:
-        # Compute stressed probabilities on the P&L grid — since we bootstrapped
-        # with stressed probs the P&L scenarios already embed the stress. We
-        # compare the two scenario sets via stress_test with a transform.
-        nom_probs = resolve_probabilities(None, pnl_nom.shape[0])
-        stressed_probs = resolve_probabilities(None, pnl_stressed.shape[0])
-
-        # Compute metrics for both distributions directly
-        def _metrics(R, p, w):
-            from .moments import estimate_sample_moments
-            mu, sigma = estimate_sample_moments(R, p)
-            mu_v = np.asarray(mu, float).ravel()
-            sigma_m = np.asarray(sigma, float)
-            w_v = np.asarray(w, float).ravel()
-            mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(max(w_v @ sigma_m @ w_v, 0.0)))
-            var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
-            cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
-            ens = compute_effective_number_scenarios(p)
-            return mean_r, stdev_r, var_r, cvar_r, ens
-
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
-        m_n = _metrics(pnl_nom, nom_probs, w_arr)
-        m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
-        ci = int(round(confidence * 100))
-        return pd.DataFrame({
-            "return_nom": [m_n[0]], "stdev_nom": [m_n[1]],
-            f"VaR{ci}_nom": [m_n[2]], f"CVaR{ci}_nom": [m_n[3]], "ENS_nom": [m_n[4]],
-            "return_stressed": [m_s[0]], "stdev_stressed": [m_s[1]],
-            f"VaR{ci}_stressed": [m_s[2]], f"CVaR{ci}_stressed": [m_s[3]], "ENS_stressed": [m_s[4]],
-        })
-
-    return stress_test(weights, pnl_df, confidence=confidence, demean=demean)
+    columns = inst_names if inst_names is not None else (list(invariants.columns) if is_df else None)
+    if columns is not None and pnl_nom.ndim == 2 and pnl_nom.shape[1] == len(columns):
+        pnl_nom = pd.DataFrame(pnl_nom, columns=columns)
+
+    # The stressed bootstrap replaces the nominal scenarios, with equal weights.
+    report = stress_test(
+        weights,
+        pnl_nom,
+        transform=None if pnl_stressed is None else lambda _: pnl_stressed,
+        confidence=confidence,
+        demean=demean,
+    )
+    return report.rename(columns=lambda c: c + "ed" if c.endswith("_stress") else c)
-- 
2.43.0


From 53304fc285774f2931c781edb7a5ee1334a1c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 041/117] fix: solve entropy pooling duals with equally scaled
 views

---
 pyvallocation/views.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 57586bc..e609448 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -264,7 +264,12 @@ def entropy_pooling(
 
     log_p_col = np.log(p_col)
     optimizer_bounds = Bounds(bounds_lower, bounds_upper)
-    row_scale = np.maximum(np.max(np.abs(current_lhs), axis=1), np.finfo(float).tiny)
+    # Views on small numbers (squares or cubes of returns) leave the dual badly conditioned
+    # unless every row has the same scale; the posterior does not depend on the scaling.
+    row_scale = np.max(np.abs(current_lhs), axis=1, keepdims=True)
+    row_scale[row_scale == 0.0] = 1.0
+    current_lhs = current_lhs / row_scale
+    current_rhs_stacked = current_rhs_stacked / row_scale
 
     failure = ""
     start = np.zeros(current_lhs.shape[0])
@@ -305,9 +310,9 @@ def entropy_pooling(
             continue
         q_posterior /= total_prob
 
-        gap = (current_lhs @ q_posterior - current_rhs_stacked).ravel() / row_scale
+        gap = (current_lhs @ q_posterior - current_rhs_stacked).ravel()
         gap[:num_equalities] = np.abs(gap[:num_equalities])
-        slack_cost = np.abs(gap * start * row_scale)[num_equalities:]
+        slack_cost = np.abs(gap * start)[num_equalities:]
         if np.all(gap <= _VIEW_TOLERANCE) and np.all(slack_cost <= _VIEW_TOLERANCE):
             return q_posterior
         if solution.nfev >= solver_options["maxfun"]:
-- 
2.43.0


From 7fcb131cc4d6acc2ada2f725838bee0e0fab6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 042/117] fix: match labelled view confidences by view

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index e609448..861d681 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1534,6 +1534,8 @@ class BlackLittermanProcessor:
                     )
                 result.append(float(conf.get(k, 1.0)))
             return np.array(result)
+        if isinstance(conf, pd.Series) and not isinstance(conf.index, pd.RangeIndex):
+            return BlackLittermanProcessor._parse_conf(conf.to_dict(), keys)
         arr = np.asarray(conf, dtype=float).ravel()
         if arr.size != len(keys):
             raise ValueError("view_confidences length mismatch.")
-- 
2.43.0


From 3a091839b5a187e8a6d22de96572a95f9ab4d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 043/117] fix: reject Black-Litterman priors of the wrong
 length and non-finite views

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 861d681..4ceec24 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1387,6 +1387,8 @@ class BlackLittermanProcessor:
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
+        if self._pi.shape[0] != n_assets or not np.all(np.isfinite(self._pi)):
+            raise ValueError(f"The prior mean must have {n_assets} finite entries.")
         if verbose:
             print(f"[BL] \\pi source: {src}.")
 
@@ -1482,6 +1484,8 @@ class BlackLittermanProcessor:
                 target = float(value[0])
             else:
                 target = float(value)
+            if not np.isfinite(target):
+                raise ValueError(f"View target must be finite, got {value}.")
 
             if isinstance(key, tuple):  # relative view \mu_i - \mu_j = target
                 asset_i, asset_j = key
-- 
2.43.0


From 85dba49a8739638fa908c1d68b5bb7710233b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 044/117] fix: scale the covariance with the horizon in the
 exact simple mean uncertainty

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..e7b30f3 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -758,7 +758,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 3c3a2545166ebbfa303f292df9cee17dcefe94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 045/117] fix: honour real-valued prior strengths in NIW
 posteriors and reject non-finite ones

---
 pyvallocation/bayesian.py | 21 +++++++++++++--------
 pyvallocation/moments.py  | 12 ++++++------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index e7b30f3..4180536 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -106,6 +106,11 @@ def _cholesky_pd(
             )
 
 
+def _pseudo_count(value: float) -> Union[int, float]:
+    """Return a pseudo-count unchanged, as ``int`` when it is a whole number."""
+    return int(value) if float(value).is_integer() else float(value)
+
+
 def chi2_quantile(p: float, dof: int, sqrt: bool = False) -> float:
     r"""Computes the quantile of the chi-square (\chi^2) distribution.
 
@@ -278,15 +283,15 @@ class NIWPosterior:
         if self.prior_sigma.ndim != 2 or self.prior_sigma.shape != (self.N, self.N):
             raise ValueError(f"`prior_sigma` must be a square matrix of shape ({self.N}, {self.N}), or a pandas.DataFrame with matching index/columns.")
 
-        if t0 <= 0:
+        if not np.isfinite(t0) or t0 <= 0:
             raise ValueError("`t0` (prior pseudo-count for mean) must be strictly positive.")
-        if nu0 < 0:
+        if not np.isfinite(nu0) or nu0 < 0:
             raise ValueError("`nu0` (prior pseudo-count for covariance) must be non-negative.")
 
         _ = _cholesky_pd(self.prior_sigma)  # Ensure prior_sigma is PD or near-PD
 
-        self.t0: int = int(t0)
-        self.nu0: int = int(nu0)
+        self.t0: Union[int, float] = _pseudo_count(t0)
+        self.nu0: Union[int, float] = _pseudo_count(nu0)
         self._posterior: Optional[NIWParams] = None
 
     @property
@@ -359,7 +364,7 @@ class NIWPosterior:
         if smu.ndim != 1 or smu.shape[0] != self.N:
             raise ValueError(f"`sample_mu` must be a 1D array or pandas.Series of length {self.N}.")
 
-        if n_obs <= 0:
+        if not np.isfinite(n_obs) or n_obs <= 0:
             raise ValueError("`n_obs` (number of observations) must be strictly positive.")
 
         if isinstance(sample_sigma, pd.DataFrame):
@@ -633,10 +638,10 @@ class RobustBayesPosterior:
         niw = NIWPosterior(
             prior_mu=prior_mu,
             prior_sigma=prior_sigma,
-            t0=int(t0),
-            nu0=int(nu0),
+            t0=t0,
+            nu0=nu0,
         )
-        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=int(n_obs))
+        niw.update(sample_mu=sample_mu, sample_sigma=sample_sigma, n_obs=n_obs)
         return cls(
             mu=niw.get_mu_ce(),
             sigma=niw.get_sigma_ce(),
diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 60a2a73..bd3141c 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1148,13 +1148,13 @@ def posterior_moments_niw(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce()
 
@@ -1183,13 +1183,13 @@ def posterior_moments_niw_with_uncertainty(
     niw = NIWPosterior(
         prior_mu=prior_mu,
         prior_sigma=prior_sigma,
-        t0=int(t0),
-        nu0=int(nu0),
+        t0=t0,
+        nu0=nu0,
     )
     niw.update(
         sample_mu=sample_mu,
         sample_sigma=sample_sigma,
-        n_obs=int(n_obs),
+        n_obs=n_obs,
     )
     return niw.get_mu_ce(), niw.get_sigma_ce(), niw.get_S_mu()
 
-- 
2.43.0


From 406edebf071a6a0045700c283a40c107bfe554f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 046/117] fix: match labelled NIW sample statistics to the
 prior's assets by name

---
 pyvallocation/bayesian.py | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 4180536..9b8a7bc 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -40,6 +40,42 @@ def _wrap_matrix_like(
     return arr
 
 
+def _align_labels(
+    obj: Union[npt.NDArray[np.floating], pd.Series, pd.DataFrame],
+    labels: Optional[pd.Index],
+    name: str,
+) -> Union[npt.NDArray[np.floating], pd.Series, pd.DataFrame]:
+    """Order a labelled vector or matrix like ``labels``.
+
+    Unlabelled inputs, and inputs whose default integer index carries no asset
+    names, are positional and returned unchanged.
+
+    Raises:
+        ValueError: If the labels of ``obj`` do not match.
+    """
+    if not isinstance(obj, (pd.Series, pd.DataFrame)):
+        return obj
+    if isinstance(obj, pd.DataFrame):
+        if labels is None or len(labels) != len(obj.index):
+            labels = obj.index
+        elif isinstance(labels, pd.RangeIndex) != isinstance(obj.index, pd.RangeIndex):
+            labels = obj.index
+        axes = (obj.index, obj.columns)
+    else:
+        if labels is None or len(labels) != len(obj.index):
+            return obj
+        axes = (obj.index,)
+    for axis in axes:
+        if axis.equals(labels):
+            continue
+        if len(axis) == len(labels) and axis.is_unique and set(axis) == set(labels):
+            continue
+        if isinstance(axis, pd.RangeIndex) or isinstance(labels, pd.RangeIndex):
+            return obj
+        raise ValueError(f"Labels of `{name}` do not match the assets.")
+    return obj.loc[labels, labels] if isinstance(obj, pd.DataFrame) else obj.loc[labels]
+
+
 def _cholesky_pd(
     mat: npt.NDArray[np.floating], jitter: float = 1e-12, *, max_attempts: int = 6
 ) -> npt.NDArray[np.floating]:
@@ -272,6 +308,7 @@ class NIWPosterior:
                 # If prior_mu was not pandas but prior_sigma is, infer index
                 self._pandas = True
                 self._asset_index = prior_sigma.index.copy()
+                prior_sigma = _align_labels(prior_sigma, self._asset_index, "prior_sigma")
             else:
                 # Ensure indices match
                 if not prior_sigma.index.equals(self._asset_index) or not prior_sigma.columns.equals(self._asset_index):
@@ -355,6 +392,10 @@ class NIWPosterior:
                 "Posterior already computed. Create a new NIWPosterior for a fresh update."
             )
 
+        # Labelled statistics follow the asset names of the prior
+        sample_mu = _align_labels(sample_mu, self._asset_index, "sample_mu")
+        sample_sigma = _align_labels(sample_sigma, self._asset_index, "sample_sigma")
+
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
             smu = sample_mu.values.astype(float)
@@ -703,6 +744,8 @@ class RobustBayesPosterior:
         """
         if self._nu1 is None or self._n_assets is None or self._T1 is None:
             raise ValueError("cred_radius_mu requires NIW params; use from_niw().")
+        if self._nu1 <= 2:
+            raise ValueError("Posterior nu1 must be greater than 2 for the mean credibility radius.")
         q_mu_sq = chi2_quantile(p_mu, self._n_assets, sqrt=False)
         return float(np.sqrt((q_mu_sq / self._T1) * (self._nu1 / (self._nu1 - 2.0))))
 
-- 
2.43.0


From d6e72f1aae2747ddac0977df45b77fa3d819f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 047/117] fix: reject non-finite means and covariances in NIW
 posteriors

---
 pyvallocation/bayesian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 9b8a7bc..d656dbb 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -325,6 +325,9 @@ class NIWPosterior:
         if not np.isfinite(nu0) or nu0 < 0:
             raise ValueError("`nu0` (prior pseudo-count for covariance) must be non-negative.")
 
+        if not (np.all(np.isfinite(self.prior_mu)) and np.all(np.isfinite(self.prior_sigma))):
+            raise ValueError("`prior_mu` and `prior_sigma` must contain only finite values.")
+
         _ = _cholesky_pd(self.prior_sigma)  # Ensure prior_sigma is PD or near-PD
 
         self.t0: Union[int, float] = _pseudo_count(t0)
@@ -416,6 +419,9 @@ class NIWPosterior:
         if ssigma.ndim != 2 or ssigma.shape != (self.N, self.N):
             raise ValueError(f"`sample_sigma` must be a square matrix of shape ({self.N}, {self.N}), or pandas.DataFrame with matching index/columns.")
 
+        if not (np.all(np.isfinite(smu)) and np.all(np.isfinite(ssigma))):
+            raise ValueError("`sample_mu` and `sample_sigma` must contain only finite values.")
+
         _ = _cholesky_pd(ssigma)  # Ensure sample_sigma is PD or near-PD
 
         # Compute posterior scalars
-- 
2.43.0


From ffbc7afc137408cc7979376ac1bc87a0c5ab9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 048/117] fix: compute Ledoit-Wolf intensities with the cited
 estimator

---
 pyvallocation/moments.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index bd3141c..70e53a1 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -331,12 +331,13 @@ def shrink_covariance_ledoit_wolf(
         The function calculates various components of the Ledoit-Wolf formula:
 
         *   `F`: The target matrix.
-        *   `pi_mat`, `pi_hat`, `diag_pi`, `off_pi`, `rho_hat`: Components related
-            to the estimation of the optimal shrinkage intensity.
+        *   `pi_hat`: Sum of the asymptotic variances of the sample covariances.
+        *   `rho_hat`: Sum of the asymptotic covariances of the target with the
+            sample covariances (zero for the identity target).
         *   `gamma_hat`: The squared Frobenius norm of the difference between
             the sample covariance and the target matrix.
-        *   `kappa`: Intermediate value for shrinkage intensity.
-        *   `delta`: The optimal shrinkage intensity, clipped between 0 and 1.
+        *   `kappa`: ``(pi_hat - rho_hat) / gamma_hat``.
+        *   `delta`: The optimal shrinkage intensity ``kappa / T``, clipped between 0 and 1.
 
         The final shrunk covariance matrix is ensured to be positive semi-definite
         using `ensure_psd_matrix`.
@@ -358,8 +359,9 @@ def shrink_covariance_ledoit_wolf(
         F = np.eye(N) * np.trace(S_arr) / N
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
-        corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        safe_std = np.where(std > 0.0, std, 1.0)
+        corr = S_arr / np.outer(safe_std, safe_std)
+        r_bar = (corr.sum() - np.trace(corr)) / (N * (N - 1)) if N > 1 else 0.0
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
@@ -368,21 +370,20 @@ def shrink_covariance_ledoit_wolf(
 
     M = X[:, :, None] * X[:, None, :]
     pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
-    diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
+    pi_hat = pi_mat.sum()
 
     if target == "identity":
-        rho_hat = diag_pi
+        # The scaled identity is uncorrelated with the estimation error.
+        rho_hat = 0.0
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        # theta[i, j] is the asymptotic covariance of s_ii and s_ij.
+        theta = np.mean((X**2 - np.diag(S_arr))[:, :, None] * (M - S_arr), axis=0)
+        cross = theta * np.outer(1.0 / safe_std, std)
+        rho_hat = np.trace(pi_mat) + r_bar * (cross.sum() - np.trace(cross))
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0.0 else 0.0
+    delta = float(np.clip(kappa / T, 0.0, 1.0))
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From a1e45a6aee21338c3af3aecdcd67f1c0a5ca83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 049/117] fix: keep Tyler's estimator independent of the data
 scale and restore the total variance

---
 pyvallocation/moments.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 70e53a1..1ebdec1 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -652,7 +652,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -669,7 +669,9 @@ def robust_covariance_tyler(
         target_matrix = ensure_psd_matrix(target_matrix)
     target_matrix *= N / np.trace(target_matrix)
 
-    covariance = sample_cov / trace_target * N
+    # Iterate on data of unit average variance: the shape does not depend on the scale.
+    X = X / np.sqrt(trace_target)
+    covariance = sample_cov / trace_target
     for _ in range(max_iter):
         try:
             inv_cov = np.linalg.pinv(covariance)
@@ -704,7 +706,7 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    covariance *= trace_target
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From 02ef34c9df758a66b6c15415eecdbfb1933a1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 050/117] fix: solve the graphical lasso at every data scale
 and return its exact zeros

---
 pyvallocation/moments.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 1ebdec1..5709921 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -782,15 +782,15 @@ def _graphical_lasso_admm(
     alpha: float,
     *,
     rho: float = 1.0,
-    max_iter: int = 200,
-    tol: float = 1e-4,
+    max_iter: int = 5000,
+    tol: float = 1e-5,
 ) -> Tuple[np.ndarray, np.ndarray, int]:
     """Solve the graphical lasso via ADMM.
 
     Args:
         emp_cov: Empirical covariance matrix.
         alpha: L1 penalty parameter.
-        rho: ADMM penalty parameter.
+        rho: Initial ADMM penalty parameter, adapted to balance the residuals.
         max_iter: Maximum number of iterations.
         tol: Convergence tolerance.
 
@@ -798,6 +798,12 @@ def _graphical_lasso_admm(
         Tuple[np.ndarray, np.ndarray, int]: Covariance, precision, and iteration count.
     """
     p = emp_cov.shape[0]
+    # Work on data of unit average variance so that ``rho`` and ``tol`` are relative.
+    scale = float(np.trace(emp_cov)) / p
+    if scale <= 0.0:
+        scale = 1.0
+    emp_cov = emp_cov / scale
+    alpha = alpha / scale
     Theta = np.linalg.inv(emp_cov + alpha * np.eye(p))
     Z = Theta.copy()
     U = np.zeros_like(emp_cov)
@@ -826,11 +832,17 @@ def _graphical_lasso_admm(
         eps_dual = tol * np.sqrt(p) + tol * np.linalg.norm(rho * U, ord="fro")
         if r_norm <= eps_pri and s_norm <= eps_dual:
             break
+        if r_norm > 10.0 * s_norm:
+            rho, U = rho * 2.0, U / 2.0
+        elif s_norm > 10.0 * r_norm:
+            rho, U = rho / 2.0, U * 2.0
 
     else:
         raise RuntimeError("Graphical lasso did not converge within max_iter.")
 
-    precision = Theta
+    # ``Z`` carries the exact zeros of the solution.
+    precision = Z if np.linalg.eigvalsh(Z)[0] > 0.0 else Theta
+    precision = precision / scale
     try:
         covariance = np.linalg.inv(precision)
     except np.linalg.LinAlgError:
-- 
2.43.0


From 41ffe10ba51cb1b875b17cab0c7d37f714ed0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 051/117] fix: estimate moments of a single asset

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 5709921..b42a023 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -521,7 +521,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -991,7 +991,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = min(1.0, max(0.0, 1.0 - (N - 2.0) / quad))
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
@@ -1242,7 +1242,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 1ed7a335dafc081fda6d64b702d04fdbe6368169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 052/117] fix: reject shrinkage targets labelled in another
 asset order

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index b42a023..f41ce13 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -662,6 +662,7 @@ def robust_covariance_tyler(
             raise ValueError("`target` must be 'identity' or an array-like.")
         target_matrix = np.eye(N)
     else:
+        _labels(R, target)
         target_matrix = np.asarray(target, dtype=float)
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
@@ -979,6 +980,7 @@ def shrink_mean_james_stein(
             raise ValueError("`target` must be 'grand_mean' or an array-like.")
         mu_target = np.full_like(mu_arr, mu_arr.mean())
     else:
+        _labels(mu_hat, target)
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
-- 
2.43.0


From e44addd9fb325523004bfdd7b47e882e4d15e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 053/117] fix: converge Huber means relative to the data scale

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index f41ce13..77b727b 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1036,7 +1036,7 @@ def robust_mean_huber(
             denom = np.maximum(np.abs(residuals), 1e-12)
             weights = np.minimum(1.0, tau / denom)
             mu_new = np.sum(weights * x) / np.sum(weights)
-            if abs(mu_new - mu) <= tol * (abs(mu) + 1.0):
+            if abs(mu_new - mu) <= tol * min(scale, abs(mu) + 1.0):
                 mu = float(mu_new)
                 break
             mu = float(mu_new)
-- 
2.43.0


From 24e5c90508224324354cc66d3ee1a82fa62b42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 054/117] fix: judge and repair small covariance matrices
 relative to their size

---
 pyvallocation/utils/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index af2289c..47fe28e 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -40,6 +40,8 @@ def ensure_psd_matrix(matrix: np.ndarray, jitter: float = 1e-8) -> np.ndarray:
     if matrix.ndim != 2 or matrix.shape[0] != matrix.shape[1]:
         raise ValueError("Input matrix must be a square 2D NumPy array.")
     matrix = (matrix + matrix.T) / 2.0
+    # Small matrices (daily covariances, say) are judged and repaired relative to their size.
+    jitter = jitter * min(1.0, float(np.max(np.abs(matrix), initial=0.0)))
     if is_psd(matrix, tolerance=jitter):
         return matrix
     min_eig = 0
-- 
2.43.0


From 288f13bd19674e96d780d7afd7438c1de540ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 055/117] fix: choose automatic graphical lasso penalties
 relative to the data scale

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 77b727b..ed71a0a 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -901,7 +901,7 @@ def sparse_precision_glasso(
     if alpha == "auto":
         S = emp_cov.copy()
         max_offdiag = np.max(np.abs(S - np.diag(np.diag(S))))
-        alpha_max = max(max_offdiag, 1e-6)
+        alpha_max = max(max_offdiag, 1e-6 * min(1.0, float(np.max(np.diag(S)))), np.finfo(float).tiny)
         alphas = np.geomspace(alpha_max, alpha_max / 100.0, num=5)
         best_alpha = alphas[-1]
         best_score = -np.inf
-- 
2.43.0


From d06ee698a04fe3c21bc5b4efb0bcb50a03a3d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 056/117] fix: reject non-finite returns and spans below one in
 covariance estimators

---
 pyvallocation/moments.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index ed71a0a..daf9252 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -411,6 +411,8 @@ def shrink_covariance_oas(R: ArrayLike, assume_centered: bool = True) -> ArrayLi
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must contain only finite values.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
@@ -648,6 +650,8 @@ def robust_covariance_tyler(
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must contain only finite values.")
     if not 0.0 <= shrinkage <= 1.0:
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
@@ -747,6 +751,8 @@ def covariance_ewma(
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, N = X.shape
+    if span < 1:
+        raise ValueError("`span` must be at least 1.")
     if T < min_periods:
         raise ValueError(f"Need at least {min_periods} observations, got {T}.")
 
@@ -878,6 +884,8 @@ def sparse_precision_glasso(
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     if X.shape[0] < 2:
         raise ValueError("Graphical lasso requires at least two observations.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must contain only finite values.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     T = X.shape[0]
-- 
2.43.0


From 557b6ad11e90c347c6b302ec9beb8b6440f55778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 057/117] fix: match labelled means and covariances by name in
 log/simple conversions

---
 pyvallocation/utils/projection.py | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index a16f44b..2171670 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -109,6 +109,29 @@ def _wrap_matrix(x_np, template):
     )
 
 
+def _covariance_like_mean(mu, cov):
+    """Return ``(mean, covariance, order)`` as arrays in the asset order of ``mu``.
+
+    ``order`` restores the covariance's own asset order. Labelled inputs are matched
+    by name; unlabelled ones are positional.
+    """
+    mu_np, cov_np = _to_numpy(mu), _to_numpy(cov)
+    order = slice(None)
+    if (
+        isinstance(mu, pd.Series)
+        and isinstance(cov, pd.DataFrame)
+        and not (mu.index.equals(cov.index) and mu.index.equals(cov.columns))
+        and not any(isinstance(axis, pd.RangeIndex) for axis in (mu.index, cov.index, cov.columns))
+    ):
+        if not (mu.index.is_unique and set(mu.index) == set(cov.index) == set(cov.columns)) or len(
+            mu
+        ) != len(cov.index):
+            raise ValueError("Labels of the mean and the covariance do not match.")
+        cov_np = cov.loc[mu.index, mu.index].to_numpy()
+        order = np.ix_(mu.index.get_indexer(cov.index), mu.index.get_indexer(cov.columns))
+    return mu_np, cov_np, order
+
+
 def log2simple(mu_g, cov_g):
     r"""\mu,\Sigma of log-returns -> \mu,\Sigma of simple returns (vectorised, pandas-aware).
 
@@ -119,8 +142,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
-    mu_g_np = _to_numpy(mu_g)
-    cov_g_np = _to_numpy(cov_g)
+    mu_g_np, cov_g_np, order = _covariance_like_mean(mu_g, cov_g)
 
     d = np.diag(cov_g_np)
     exp_mu = np.exp(mu_g_np + 0.5 * d)
@@ -131,7 +153,7 @@ def log2simple(mu_g, cov_g):
         - exp_mu[:, None] * exp_mu
     )
 
-    return (_wrap_vector(mu_r_np, mu_g), _wrap_matrix(cov_r_np, cov_g))
+    return (_wrap_vector(mu_r_np, mu_g), _wrap_matrix(cov_r_np[order], cov_g))
 
 
 def simple2log(mu_r, cov_r):
@@ -144,8 +166,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
-    mu_r_np = _to_numpy(mu_r)
-    cov_r_np = _to_numpy(cov_r)
+    mu_r_np, cov_r_np, order = _covariance_like_mean(mu_r, cov_r)
 
     m = mu_r_np + 1.0
     if np.any(m <= 0):
@@ -159,7 +180,7 @@ def simple2log(mu_r, cov_r):
     cov_g_np = np.log1p(cov_r_np / np.outer(m, m))
     np.fill_diagonal(cov_g_np, var_g)  # keep exact variances
 
-    return (_wrap_vector(mu_g_np, mu_r), _wrap_matrix(cov_g_np, cov_r))
+    return (_wrap_vector(mu_g_np, mu_r), _wrap_matrix(cov_g_np[order], cov_r))
 
 
 def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
-- 
2.43.0


From 0a06fbf4fdc4bcab85a2f83a10905a367352f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 058/117] fix: reject simple-return moments no log-normal
 distribution has

---
 pyvallocation/utils/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 2171670..0e6e06d 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -177,7 +177,10 @@ def simple2log(mu_r, cov_r):
     var_g = np.log1p(np.diag(cov_r_np) / m**2)
     mu_g_np = np.log(m) - 0.5 * var_g
 
-    cov_g_np = np.log1p(cov_r_np / np.outer(m, m))
+    ratio = cov_r_np / np.outer(m, m)
+    if np.any(ratio <= -1.0):
+        raise ValueError("No log-normal distribution has these simple-return moments.")
+    cov_g_np = np.log1p(ratio)
     np.fill_diagonal(cov_g_np, var_g)  # keep exact variances
 
     return (_wrap_vector(mu_g_np, mu_r), _wrap_matrix(cov_g_np[order], cov_r))
-- 
2.43.0


From eb44d341ea448f95f158b81c228e0ebcda85dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 059/117] fix: price current drivers in the scenario layout
 when repricing

---
 pyvallocation/utils/projection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 0e6e06d..3d30878 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -429,12 +429,13 @@ def make_repricing_fn(pricing_fn, current_drivers: np.ndarray):
         >>> repricer = make_repricing_fn(pricing_fn, current_yield)
         >>> # repricer(delta_y) returns bond P&L scenarios
     """
-    y0 = np.asarray(current_drivers, dtype=float)
-    p0 = pricing_fn(y0)
+    y0 = np.array(current_drivers, dtype=float)
 
     def _reprice(delta_y: np.ndarray) -> np.ndarray:
+        # Both levels have the scenario layout the pricing function is vectorised over.
         y_horizon = y0 + delta_y
-        return pricing_fn(y_horizon) - p0
+        y_now = np.broadcast_to(y0, np.shape(y_horizon))
+        return pricing_fn(y_horizon) - pricing_fn(y_now)
 
     return _reprice
 
-- 
2.43.0


From 6f4f2e915bd83a54e2d5b8f79aae0535294fc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 060/117] fix: label composed repricing results with the
 instrument names

---
 pyvallocation/utils/projection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 3d30878..52876a9 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -210,6 +210,8 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
             scenarios.  Built-in options:
             :func:`reprice_exp` (stocks: ``exp(Δy) - 1``),
             :func:`reprice_taylor` (greeks/duration: ``θτ + δΔy + ½γΔy²``).
+            The columns of labelled results carry the instrument names of a
+            :func:`compose_repricers` callable.
         seed: Random seed for reproducibility.  Defaults to ``None``.
 
     Returns:
@@ -275,7 +277,8 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         return _wrap_vector(scenario_sums, template_ser)
 
     if is_dataframe:
-        template_df = pd.DataFrame(index=range(n_simulations), columns=R.columns)
+        columns = getattr(reprice, "instrument_names", R.columns)
+        template_df = pd.DataFrame(index=range(n_simulations), columns=columns)
         return _wrap_matrix(scenario_sums, template_df)
     return scenario_sums
 
@@ -520,4 +523,5 @@ def compose_repricers(instruments, invariant_columns):
             pnl[:, j] = np.asarray(fn(chunk), dtype=float).ravel()
         return pnl
 
+    _combined.instrument_names = list(instrument_names)
     return _combined, instrument_names
-- 
2.43.0


From 03ca8681dda3d152d38059ee813632f2d1fc5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 061/117] fix: match labelled probabilities when projecting
 invariants per instrument

---
 pyvallocation/portfolioapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index a8b8d42..3afa0ca 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1092,7 +1092,7 @@ class PortfolioWrapper:
             # K→N mapping: project as numpy to avoid column-count mismatch,
             # then wrap the output with instrument names.
             inv_np = invariants.to_numpy(dtype=float) if isinstance(invariants, pd.DataFrame) else np.asarray(invariants, dtype=float)
-            p_arr = np.asarray(p, dtype=float).ravel() if p is not None else None
+            p_arr = np.asarray(align_probabilities(p, invariants, "p"), dtype=float).ravel() if p is not None else None
             pnl_np = project_scenarios(
                 inv_np, investment_horizon=horizon, p=p_arr,
                 n_simulations=n_simulations, reprice=reprice, seed=seed,
-- 
2.43.0


From c71a5547939006ed0d949e499193d43d7b94578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 062/117] fix: compute log-normal covariances without
 cancellation

---
 pyvallocation/utils/projection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 52876a9..48ecd5d 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -148,10 +148,7 @@ def log2simple(mu_g, cov_g):
     exp_mu = np.exp(mu_g_np + 0.5 * d)
     mu_r_np = exp_mu - 1
 
-    cov_r_np = (
-        np.exp(mu_g_np[:, None] + mu_g_np + 0.5 * (d[:, None] + d + 2 * cov_g_np))
-        - exp_mu[:, None] * exp_mu
-    )
+    cov_r_np = exp_mu[:, None] * exp_mu * np.expm1(cov_g_np)
 
     return (_wrap_vector(mu_r_np, mu_g), _wrap_matrix(cov_r_np[order], cov_g))
 
-- 
2.43.0


From 03415f39533ec1dd7e71e82f43dcd02ee77c5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 063/117] fix: match integer-labelled weights to the assets by
 label in risk measures

---
 pyvallocation/utils/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 501e491..95ed7af 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -20,13 +20,13 @@ def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarr
 
 def _align_weights(w, columns):
     """Reorder labelled weights to labelled ``columns``; unlabelled inputs stay positional."""
-    if not isinstance(w, (pd.Series, pd.DataFrame)) or isinstance(w.index, pd.RangeIndex):
+    if not isinstance(w, (pd.Series, pd.DataFrame)) or w.index.equals(columns):
         return w
-    if isinstance(columns, pd.RangeIndex) or w.index.equals(columns):
+    if w.index.is_unique and columns.is_unique and len(w) == len(columns) and w.index.isin(columns).all():
+        return w.reindex(columns)
+    if isinstance(w.index, pd.RangeIndex) or isinstance(columns, pd.RangeIndex):
         return w
-    if not w.index.is_unique or len(w) != len(columns) or not w.index.isin(columns).all():
-        raise ValueError("Weight labels must match the asset labels.")
-    return w.reindex(columns)
+    raise ValueError("Weight labels must match the asset labels.")
 
 def portfolio_variance(
     w: np.ndarray | pd.Series,
-- 
2.43.0


From bbe0f7cfe86f66389ff92b13810ead6f8b07d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 064/117] fix: reject ambiguous weight labels and keep
 portfolio names in stress reports

---
 pyvallocation/stress.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 5a67a18..74c4bec 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -54,12 +54,12 @@ def _align_weights(
     elif isinstance(weights, pd.Series):
         matrix = weights.to_numpy(dtype=float).reshape(-1, 1)
         idx = list(weights.index)
-        names = [weights.name or "portfolio_0"]
+        names = ["portfolio_0" if weights.name is None else weights.name]
     elif isinstance(weights, Mapping):
         series = pd.Series(weights, dtype=float)
         matrix = series.to_numpy(dtype=float).reshape(-1, 1)
         idx = list(series.index)
-        names = [series.name or "portfolio_0"]
+        names = ["portfolio_0"]
     else:
         arr = np.asarray(weights, dtype=float)
         if arr.ndim == 1:
@@ -77,7 +77,9 @@ def _align_weights(
         if idx is None:
             if matrix.shape[0] != len(asset_names):
                 raise ValueError("Weight dimension does not match number of assets.")
-        else:
+        elif idx != list(asset_names):
+            if len(set(idx)) != len(idx) or len(idx) != len(asset_names):
+                raise ValueError("Weight labels must be unique and match the asset names one to one.")
             if set(idx) != set(asset_names):
                 missing = sorted(set(asset_names) - set(idx))
                 extra = sorted(set(idx) - set(asset_names))
-- 
2.43.0


From 6fb54470e15e4928d9863fdf368b12198585a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 065/117] fix: match labelled risk budgets and costs to the
 assets by name

---
 pyvallocation/portfolioapi.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 3afa0ca..00385a7 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1125,6 +1125,17 @@ class PortfolioWrapper:
         if pc is not None:
             self.proportional_costs = pc
 
+    def _by_asset(self, value, label: str):
+        """Order a labelled series like the assets; default integer labels stay positional unless they name the assets."""
+        names = self.dist.asset_names
+        if not isinstance(value, pd.Series) or names is None or list(value.index) == list(names):
+            return value
+        if value.index.is_unique and len(value) == len(names) and set(value.index) == set(names):
+            return value.reindex(names)
+        if isinstance(value.index, pd.RangeIndex):
+            return value
+        raise ValueError(f"`{label}` labels do not match the asset names {list(names)}.")
+
     def _cost_arrays(
         self, costs: TransactionCosts
     ) -> Tuple[np.ndarray, Optional[np.ndarray], Optional[np.ndarray]]:
@@ -1136,14 +1147,8 @@ class PortfolioWrapper:
         Returns:
             (initial_weights, market_impact_costs, proportional_costs)
         """
-        names = self.dist.asset_names
-
         def _vector(value, label: str) -> np.ndarray:
-            if isinstance(value, pd.Series) and names is not None and not isinstance(value.index, pd.RangeIndex):
-                if len(value) != len(names) or set(value.index) != set(names):
-                    raise ValueError(f"`{label}` labels do not match the asset names {list(names)}.")
-                value = value.reindex(names)
-            arr = np.array(value, dtype=float).ravel()
+            arr = np.array(self._by_asset(value, label), dtype=float).ravel()
             if arr.shape != (self.dist.N,):
                 raise ValueError(f"`{label}` must have shape ({self.dist.N},), got {arr.shape}")
             return arr
@@ -1771,7 +1776,7 @@ class PortfolioWrapper:
             h=h,
             A=A,
             b=b,
-            risk_budgets=risk_budgets,
+            risk_budgets=self._by_asset(risk_budgets, "risk_budgets"),
         )
 
         mu_r, cov_r = self._report_mu_cov()
@@ -1903,7 +1908,7 @@ class PortfolioWrapper:
             h=h,
             A=A,
             b=b,
-            risk_budgets=risk_budgets,
+            risk_budgets=self._by_asset(risk_budgets, "risk_budgets"),
         )
 
         mu_r, cov_r = self._report_mu_cov()
-- 
2.43.0


From 3279d28a501848836ab955f6e7ce9049390e833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 066/117] fix: order the labelled covariances of a robust
 posterior like its mean

---
 pyvallocation/bayesian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index d656dbb..4eda89c 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -656,6 +656,14 @@ class RobustBayesPosterior:
     _n_assets: Optional[int] = field(default=None, repr=False)
     _T1: Optional[float] = field(default=None, repr=False)
 
+    def __post_init__(self):
+        """Order labelled covariances like the labelled mean."""
+        labels = self.mu.index if isinstance(self.mu, pd.Series) else None
+        if labels is None and isinstance(self.sigma, pd.DataFrame):
+            labels = self.sigma.index
+        object.__setattr__(self, "sigma", _align_labels(self.sigma, labels, "sigma"))
+        object.__setattr__(self, "s_mu", _align_labels(self.s_mu, labels, "s_mu"))
+
     @classmethod
     def from_niw(
         cls,
-- 
2.43.0


From a93c668169b36ae79d8295a8ad93ba3e41ffa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 067/117] fix: reject ensemble weights for unknown sample
 portfolios

---
 pyvallocation/utils/weights.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..ffe0ed8 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -116,6 +116,9 @@ def normalize_weights(
             if reindexed.isna().any():
                 missing = [name for name, val in zip(sample_names, reindexed) if pd.isna(val)]
                 raise ValueError(f"Missing weights for samples: {missing}.")
+            extra = [name for name in weights.index if name not in sample_names]
+            if extra:
+                raise ValueError(f"Weights supplied for unknown samples: {extra}.")
             weights_vector = reindexed.to_numpy(dtype=float)
     else:
         weights_vector = np.asarray(weights, dtype=float)
-- 
2.43.0


From 1f09ebc5918c9a60b96a3343c00ae009252b123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 068/117] fix: report volatility overlays for single-asset
 scenario problems

---
 pyvallocation/portfolioapi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 00385a7..6ce5c9c 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1394,7 +1394,7 @@ class PortfolioWrapper:
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
-            cov = np.cov(scenarios.T, aweights=probs, bias=True)
+            cov = np.atleast_2d(np.cov(scenarios.T, aweights=probs, bias=True))
             vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
@@ -1551,7 +1551,7 @@ class PortfolioWrapper:
                     else generate_uniform_probabilities(scen.shape[0])
                 )
                 if "Volatility" not in alternate_risks:
-                    cov = np.cov(scen.T, aweights=probs, bias=True)
+                    cov = np.atleast_2d(np.cov(scen.T, aweights=probs, bias=True))
                     vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
-- 
2.43.0


From 8287ba71ca96240a7666a3a87c46e0353ebc46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 069/117] fix: asset distributions keep their own copy of the
 supplied data

---
 pyvallocation/portfolioapi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 6ce5c9c..b1f8722 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -109,24 +109,24 @@ class AssetsDistribution:
 
         if isinstance(mu, pd.Series):
             asset_names = _merge_names(asset_names, mu.index)
-            mu = mu.to_numpy(dtype=float)
+            mu = mu.to_numpy(dtype=float, copy=True)
         elif mu is not None:
-            mu = np.asarray(mu, dtype=float)
+            mu = np.array(mu, dtype=float)
 
         if isinstance(cov, pd.DataFrame):
             asset_names = _merge_names(asset_names, cov.index)
             if asset_names is not None and list(cov.columns) != asset_names:
                 raise ValueError("Covariance matrix columns must match asset names.")
-            cov = cov.to_numpy(dtype=float)
+            cov = cov.to_numpy(dtype=float, copy=True)
         elif cov is not None:
-            cov = np.asarray(cov, dtype=float)
+            cov = np.array(cov, dtype=float)
 
         probs = align_probabilities(probs, scenarios)
         if isinstance(scenarios, pd.DataFrame):
             asset_names = _merge_names(asset_names, scenarios.columns)
-            scenarios = scenarios.to_numpy(dtype=float)
+            scenarios = scenarios.to_numpy(dtype=float, copy=True)
         elif scenarios is not None:
-            scenarios = np.asarray(scenarios, dtype=float)
+            scenarios = np.array(scenarios, dtype=float)
 
         if isinstance(probs, pd.Series):
             probs = probs.to_numpy(dtype=float)
-- 
2.43.0


From 0e731157f814cd10566787e0d544af8ea592bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 070/117] fix: reject infinite prices in labelled price
 histories

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index b1f8722..4e9b9ec 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -998,6 +998,8 @@ class PortfolioWrapper:
                 raise ValueError("`prices` must have at least 2 rows to compute returns.")
             if prices.isnull().any().any():
                 raise ValueError("`prices` contains NaN values. Fill or drop missing data before calling from_prices.")
+            if not np.all(np.isfinite(prices.to_numpy(dtype=float))):
+                raise ValueError("`prices` contains infinite values.")
             if (prices <= 0).any().any():
                 raise ValueError("`prices` contains non-positive values. Prices must be strictly positive.")
             returns = prices.pct_change().iloc[1:]
-- 
2.43.0


From 5af3441a1dd0e84a203a471dc2677db30b5ec9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 071/117] fix: robust gamma portfolios report simple returns
 like the robust frontier

---
 pyvallocation/portfolioapi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 4e9b9ec..5c372a9 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -2046,6 +2046,8 @@ class PortfolioWrapper:
         result = optimizer.solve_gamma_variant(gamma_mu, gamma_sigma_sq)
 
         w_series = pd.Series(result.weights, index=self.dist.asset_names, name="Robust Gamma Portfolio")
+        mu_r, _ = self._report_mu_cov()  # simple-return space, as on the robust frontier
+        nominal_return = float(mu_r @ np.asarray(result.weights, dtype=float))
         risk_value = float(result.risk) ** 2
         if risk_value > gamma_sigma_sq:
             logger.debug(
@@ -2057,9 +2059,9 @@ class PortfolioWrapper:
 
         logger.info(
             f"Successfully solved for robust \\gamma-portfolio. "
-            f"Nominal Return: {result.nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
+            f"Nominal Return: {nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
         )
-        return w_series, result.nominal_return, risk_value
+        return w_series, nominal_return, risk_value
 
     def make_ensemble_spec(
         self,
-- 
2.43.0


From dc186c841067d13a409c9e4adc15896bb86fb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 072/117] fix: minimum-risk selectors give the same result
 every time a specification is used

---
 pyvallocation/ensembles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..a19aba2 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        min_risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,8 +992,7 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
-            weights, *_ = frontier.min_risk(risk_label=risk_label)
+            weights, *_ = frontier.min_risk(risk_label=min_risk_label)
             return weights.rename(label)
 
         return _min
-- 
2.43.0


From 28ebd18d9f124e41c8ec7ee1ed58f2cba341df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 073/117] fix: reject ensembles whose specifications share a
 name

---
 pyvallocation/ensembles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index a19aba2..8305dea 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -550,6 +550,8 @@ def assemble_portfolio_ensemble(
     """
     if not specs:
         raise ValueError("At least one EnsembleSpec must be provided.")
+    if len({spec.name for spec in specs}) != len(specs):
+        raise ValueError("EnsembleSpec names must be unique.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
     selections: List[pd.Series] = []
-- 
2.43.0


From 673094399d18e8d385d05e348b9b2f4a4cc1f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 074/117] fix: reject ensembles of portfolios over different
 assets

---
 pyvallocation/ensembles.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 8305dea..5cfcf38 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -564,7 +564,11 @@ def assemble_portfolio_ensemble(
         selected = _coerce_weights_series(frontier, spec.selector(frontier), spec.name)
         selections.append(selected)
 
-    selection_df = pd.concat(selections, axis=1)
+    labels = selections[0].index
+    for selected in selections:
+        if len(selected) != len(labels) or not labels.is_unique or set(selected.index) != set(labels):
+            raise ValueError(f"Spec '{selected.name}' selects a portfolio over different assets.")
+    selection_df = pd.concat([selected.reindex(labels) for selected in selections], axis=1)
     selection_df.columns = [spec.name for spec in specs]
 
     ensemble_names = _normalise_ensemble_argument(ensemble)
-- 
2.43.0


From 152b56fcf052b8542bc017c309d64fc2c543cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 075/117] fix: match labelled ensemble weights to
 specifications by name in frontier mode

---
 pyvallocation/ensembles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 5cfcf38..7fb3374 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -571,6 +571,9 @@ def assemble_portfolio_ensemble(
     selection_df = pd.concat([selected.reindex(labels) for selected in selections], axis=1)
     selection_df.columns = [spec.name for spec in specs]
 
+    if isinstance(ensemble_weights, pd.Series):
+        ensemble_weights = normalize_weights(ensemble_weights, len(specs), list(selection_df.columns))
+
     ensemble_names = _normalise_ensemble_argument(ensemble)
     combine_mode = combine.lower()
     if combine_mode not in {"selected", "frontier"}:
-- 
2.43.0


From f0ac50541a724077848e31b5e1e6bbaab96ca7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 076/117] fix: reject negative ensemble weights

---
 pyvallocation/utils/weights.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index ffe0ed8..5510647 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -129,4 +129,6 @@ def normalize_weights(
     total = float(np.sum(weights_vector))
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError("`weights` must sum to a positive finite value.")
+    if np.any(weights_vector < 0.0):
+        raise ValueError("`weights` must be non-negative.")
     return weights_vector / total
-- 
2.43.0


From 9b54cffadd6bd5388bae85cc65682e45562d01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 077/117] fix: ensemble specs built from a wrapper honour its
 constraints and costs

---
 pyvallocation/portfolioapi.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 5c372a9..5844431 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -2083,9 +2083,10 @@ class PortfolioWrapper:
     ) -> EnsembleSpec:
         """
         Convenience wrapper around :func:`pyvallocation.ensembles.make_portfolio_spec`
-        that reuses the wrapper's distribution.
+        that reuses the wrapper's distribution, constraints and costs. ``constraints``
+        in ``optimiser_kwargs`` override the wrapper's own.
         """
-        from .ensembles import make_portfolio_spec
+        from .ensembles import _resolve_optimiser, make_portfolio_spec
 
         use_scenarios = self.dist.scenarios is not None
 
@@ -2097,11 +2098,26 @@ class PortfolioWrapper:
             """
             return copy.deepcopy(self.dist)
 
+        settings = ["initial_weights", "market_impact_costs", "proportional_costs", "_return_type", "_uncertainty_cov"]
+        if (optimiser_kwargs or {}).get("constraints") is None:
+            settings += ["G", "h", "A", "b"]
+        state = {attr: copy.deepcopy(getattr(self, attr)) for attr in settings}
+        build_frontier = _resolve_optimiser(optimiser)
+
+        def _with_wrapper_settings(wrapper: PortfolioWrapper, **kwargs: Any) -> PortfolioFrontier:
+            """Build the frontier under this wrapper's constraints, costs and return space."""
+            for attr, value in state.items():
+                setattr(wrapper, attr, value)
+            return build_frontier(wrapper, **kwargs)
+
+        metadata = dict(metadata or {})
+        metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else optimiser.__name__)
+
         return make_portfolio_spec(
             name=name,
             distribution_factory=_distribution_factory,
             use_scenarios=use_scenarios,
-            optimiser=optimiser,
+            optimiser=_with_wrapper_settings,
             optimiser_kwargs=optimiser_kwargs,
             selector=selector,
             selector_kwargs=selector_kwargs,
-- 
2.43.0


From dc6cddab0784b9a80410a9cd9ea33c9897344d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 078/117] fix: return copies of view posteriors so callers
 cannot change the processors

---
 pyvallocation/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 4ceec24..45d1d53 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1170,7 +1170,7 @@ class FlexibleViewsProcessor:
         np.ndarray
             The optimal posterior probability vector, `q`, in column-vector form.
         """
-        return self.posterior_probabilities
+        return self.posterior_probabilities.copy()
 
     def get_posterior(
         self,
@@ -1191,7 +1191,7 @@ class FlexibleViewsProcessor:
             The type of return object (NumPy or Pandas) depends on the input
             type provided during the initialization of the `FlexibleViewsProcessor`.
         """
-        return self.posterior_returns, self.posterior_cov
+        return self.posterior_returns.copy(), self.posterior_cov.copy()
 
 class BlackLittermanProcessor:
     r"""
@@ -1307,7 +1307,7 @@ class BlackLittermanProcessor:
         Returns:
             Tuple[ArrayLike, ArrayLike]: Posterior mean and covariance.
         """
-        return self._posterior_mean, self._posterior_cov
+        return self._posterior_mean.copy(), self._posterior_cov.copy()
 
     def __init__(
         self,
-- 
2.43.0


From 77f985e8fe6934aa01549aaaf3e0a669e1f03171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 079/117] fix: report solver errors during the CVaR view search

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 45d1d53..f66a9e0 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -962,7 +962,7 @@ class FlexibleViewsProcessor:
                 mask = q_flat > 0
                 kl = float(np.sum(q_flat[mask] * np.log(q_flat[mask] / p[mask])))
                 solved[s] = q, kl
-            except (RuntimeError, ValueError):
+            except RuntimeError:
                 solved[s] = None, np.inf
             return solved[s]
 
-- 
2.43.0


From 676bd12276b3c53a9b5f34c218d47cfc04be41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 080/117] fix: return a copy of the NIW posterior mean

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 4eda89c..3dbfa1d 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -469,7 +469,7 @@ class NIWPosterior:
         """
         if self._posterior is None:
             raise RuntimeError("Posterior parameters not computed. Call `update()` first.")
-        return self._wrap_vector(np.asarray(self._posterior.mu1, dtype=float).ravel())
+        return self._wrap_vector(np.array(self._posterior.mu1, dtype=float).ravel())
 
     def get_S_mu(self) -> Union[npt.NDArray[np.floating], "pd.DataFrame[np.floating]"]:
         r"""Computes the scatter matrix :math:`S_{\mu}` for the posterior of :math:`\mu`.
-- 
2.43.0


From 1b25003cd731992954b9808dbc7184fed9f753a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 081/117] fix: reject unknown return types instead of treating
 them as simple

---
 pyvallocation/portfolioapi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 5844431..1171e73 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -804,6 +804,12 @@ class PortfolioWrapper:
         if costs is not None:
             wrapper._apply_transaction_costs(costs)
 
+    @staticmethod
+    def _check_return_type(return_type: str) -> None:
+        """Raise unless ``return_type`` names a supported return convention."""
+        if return_type not in {"simple", "log"}:
+            raise ValueError(f"`return_type` must be 'simple' or 'log', got {return_type!r}.")
+
     @classmethod
     def from_moments(
         cls,
@@ -836,6 +842,7 @@ class PortfolioWrapper:
         """
         from .utils.validation import ensure_psd_matrix
 
+        cls._check_return_type(return_type)
         cov_arr = np.asarray(cov, dtype=float) if not isinstance(cov, pd.DataFrame) else cov.to_numpy(dtype=float)
         cov_psd = ensure_psd_matrix(cov_arr)
         if isinstance(cov, pd.DataFrame):
@@ -875,6 +882,7 @@ class PortfolioWrapper:
             >>> frontier = wrapper.variance_frontier()
         """
 
+        cls._check_return_type(return_type)
         if return_type == "log":
             from .utils.projection import convert_scenarios_compound_to_simple
             is_df = isinstance(scenarios, pd.DataFrame)
-- 
2.43.0


From 770a022dfbac08788e31dc705ebc0d8f24fb0de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 082/117] fix: keep falsy portfolio names of single sample
 portfolios

---
 pyvallocation/utils/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 5510647..8d80774 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -48,7 +48,7 @@ def ensure_samples_matrix(
         arr = sample_portfolios.to_numpy(dtype=float)
     elif isinstance(sample_portfolios, pd.Series):
         asset_names = list(sample_portfolios.index)
-        sample_names = [sample_portfolios.name or "portfolio_0"]
+        sample_names = ["portfolio_0" if sample_portfolios.name is None else sample_portfolios.name]
         arr = sample_portfolios.to_numpy(dtype=float).reshape(-1, 1)
     else:
         arr = np.asarray(sample_portfolios, dtype=float)
-- 
2.43.0


From 894b1248a4e0cc2ef8da3975aa8ecba1fab6d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 083/117] fix: draw every frontier of a grid even when labels
 repeat

---
 pyvallocation/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 89f7331..41a2d44 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -444,11 +444,10 @@ def plot_frontiers_grid(
     normalized = _normalize_frontiers(frontiers, labels)
     grouper = by or (lambda supplied, fr: fr.risk_measure or "Risk")
 
-    grouped: "OrderedDict[str, OrderedDict[str, PortfolioFrontier]]" = OrderedDict()
+    grouped: "OrderedDict[str, List[Tuple[str, PortfolioFrontier]]]" = OrderedDict()
     for supplied_label, frontier in normalized:
         key = str(grouper(supplied_label, frontier))
-        bucket = grouped.setdefault(key, OrderedDict())
-        bucket[supplied_label or frontier.risk_measure] = frontier
+        grouped.setdefault(key, []).append((supplied_label or frontier.risk_measure, frontier))
 
     if not grouped:
         raise ValueError("No frontiers supplied.")
@@ -458,7 +457,7 @@ def plot_frontiers_grid(
     fig, axes = plt.subplots(rows, cols, figsize=figsize, sharex=sharex, sharey=sharey)
     axes_flat = np.atleast_1d(axes).ravel()
 
-    for ax, (group_name, mapping) in zip(axes_flat, grouped.items()):
+    for ax, (group_name, members) in zip(axes_flat, grouped.items()):
         show_legend = legend
         if legend_policy == "auto":
             show_legend = legend and len(grouped) == 1
@@ -470,7 +469,8 @@ def plot_frontiers_grid(
             raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
 
         plot_frontiers(
-            mapping,
+            [frontier for _, frontier in members],
+            labels=[label for label, _ in members],
             ax=ax,
             highlight=highlight,
             risk_free_rate=risk_free_rate,
-- 
2.43.0


From 8789575151540e20ed1531e3b46b2444d42ee573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 084/117] fix: accept the documented legend policy 'all' for
 frontier grids

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 41a2d44..7d53ae7 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -463,10 +463,10 @@ def plot_frontiers_grid(
             show_legend = legend and len(grouped) == 1
         elif legend_policy == "none":
             show_legend = False
-        elif legend_policy == "each":
+        elif legend_policy in {"all", "each"}:
             show_legend = legend
         else:
-            raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
+            raise ValueError("`legend_policy` must be 'auto', 'all' (or 'each'), or 'none'.")
 
         plot_frontiers(
             [frontier for _, frontier in members],
-- 
2.43.0


From cf58a9d01669a16bcc87622b976b8117eadbf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 085/117] fix: apply top_n to weight plots of several
 portfolios

---
 pyvallocation/plotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 7d53ae7..fdb7fd6 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -525,6 +525,9 @@ def plot_weights(
         series.plot(kind=kind, ax=ax, legend=False)
     elif isinstance(weights, pd.DataFrame):
         data = weights.copy()
+        if top_n is not None:
+            ranks = data.max(axis=1).rank(method="first", ascending=False)
+            data = data.loc[(ranks <= top_n).to_numpy()]
         data.plot(kind=kind, ax=ax, stacked=stacked, legend=legend)
     else:
         raise TypeError("`weights` must be a pandas Series or DataFrame.")
-- 
2.43.0


From 0be0560f4680b8035a0aad9299915dbde88b3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 086/117] fix: keep asset names on the category axis of weight
 bar plots

---
 pyvallocation/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index fdb7fd6..40b0af5 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -536,9 +536,8 @@ def plot_weights(
         try:
             from matplotlib.ticker import FuncFormatter
             fmt = FuncFormatter(lambda x, _pos: f"{x:.1%}")
-            ax.xaxis.set_major_formatter(fmt)
-            if kind == "bar":
-                ax.yaxis.set_major_formatter(fmt)
+            value_axis = ax.xaxis if kind == "barh" else ax.yaxis
+            value_axis.set_major_formatter(fmt)
         except Exception:  # pragma: no cover
             pass
 
-- 
2.43.0


From 160031540e6b74016a723a9a36289bdf956216dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 087/117] fix: plot parameter impact on the axes supplied

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 40b0af5..b1d6e4c 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -626,7 +626,7 @@ def plot_param_impact(
         param: Metadata key to plot along the x-axis.
         risk_label: Risk label for the risk panel.
         percent_axes: Whether to format y-axes as percentages.
-        ax: Optional tuple of axes or a figure axis to reuse.
+        ax: Optional pair of axes to reuse, return panel first.
 
     Returns:
         Tuple[matplotlib.figure.Figure, tuple]: Figure and axes tuple.
@@ -644,8 +644,8 @@ def plot_param_impact(
     if ax is None:
         fig, axes = plt.subplots(1, 2, figsize=(8, 3))
     else:
-        fig = ax.figure
         axes = ax
+        fig = axes[0].figure
 
     ax_return, ax_risk = axes
     ax_return.plot(values, returns, marker="o")
-- 
2.43.0


From 5fdcc3b618e0552d23a84ac293c333bde0db3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 088/117] fix: do not label placeholder colours with the
 parameter name

---
 pyvallocation/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index b1d6e4c..7d1f582 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -579,10 +579,12 @@ def plot_robust_path(
 
     risk_vec = frontier._risk_vector(risk_label)
     values = None
+    colour_label = param
     if frontier.metadata:
         values = np.array([meta.get(param) for meta in frontier.metadata], dtype=float)
     if values is None or not np.all(np.isfinite(values)):
         values = np.linspace(0.0, 1.0, len(risk_vec))
+        colour_label = "Frontier position"
 
     sc = ax.scatter(risk_vec, frontier.returns, c=values, cmap=cmap, s=30, zorder=3)
     if show_points:
@@ -598,7 +600,7 @@ def plot_robust_path(
     ax.set_ylabel("Expected Return")
     ax.grid(True, alpha=0.3)
     cbar = plt.colorbar(sc, ax=ax)
-    cbar.set_label(param)
+    cbar.set_label(colour_label)
 
     if percent_axes:
         try:
-- 
2.43.0


From 3d8c165dc54e9ff19fadb29859a90b333f2f79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 089/117] fix: report plots show the selected portfolio on the
 displayed risk axis

---
 pyvallocation/plotting.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 7d1f582..4800a8f 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -950,10 +950,23 @@ def plot_frontier_report(
                 risk_label=risk_label
             )
         elif selection_key in {"max_return", "maximum_return"}:
-            selected_weights, selected_return, selected_risk = frontier.max_return()
+            _, selected_risk, selected_return, selected_weights, _ = _resolve_highlight(
+                frontier,
+                "max_return",
+                risk_vector=frontier._risk_vector(risk_label),
+                risk_free_rate=None,
+            )
         elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
-            rf = float(selection_kwargs.pop("risk_free_rate", 0.0))
-            selected_weights, selected_return, selected_risk = frontier.tangency(rf)
+            rf = float(selection_kwargs.setdefault("risk_free_rate", 0.0))
+            resolved = _resolve_highlight(
+                frontier,
+                "tangency",
+                risk_vector=frontier._risk_vector(risk_label),
+                risk_free_rate=rf,
+            )
+            if resolved is None:
+                raise ValueError("All portfolios on the frontier have zero risk. Sharpe ratio is undefined.")
+            _, selected_risk, selected_return, selected_weights, _ = resolved
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
             selected_weights, selected_return, selected_risk = frontier.at_risk(
-- 
2.43.0


From 0b231554c121df9ee713a7b354a9554567416a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 090/117] fix: label ellipsoids with their actual radius

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 4800a8f..c6f141a 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -836,7 +836,7 @@ def plot_assumptions_3d(
 
             handles = [
                 Line2D([0], [0], marker="o", color="w", markerfacecolor="crimson", markersize=6, label="Mean"),
-                Patch(facecolor=cov_color, alpha=cov_alpha, label="Covariance (1σ)"),
+                Patch(facecolor=cov_color, alpha=cov_alpha, label=f"Covariance ({n_std:g}σ)"),
             ]
             if scen_vec is not None:
                 handles.insert(
@@ -893,7 +893,7 @@ def plot_assumptions_3d(
 
             handles = [
                 Line2D([0], [0], marker="o", color="w", markerfacecolor="crimson", markersize=6, label="Mean"),
-                Patch(facecolor="#ff7f00", alpha=0.35, label="Mean uncertainty (1σ)"),
+                Patch(facecolor="#ff7f00", alpha=0.35, label=f"Mean uncertainty ({uncertainty_std:g}σ)"),
             ]
             ax_unc.legend(handles=handles, loc="upper left", frameon=True)
         except Exception:  # pragma: no cover
-- 
2.43.0


From fea53312d27a81dee2bc9575fd026165a3158b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 091/117] fix: CVaR return targets use the reported expected
 returns

---
 pyvallocation/optimization.py | 6 +++++-
 pyvallocation/portfolioapi.py | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index caad509..16b21bc 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -565,6 +565,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         *,
         initial_weights: Optional[npt.NDArray[np.floating]] = None,
         proportional_costs: Optional[npt.NDArray[np.floating]] = None,
+        expected_returns: Optional[npt.ArrayLike] = None,
     ):
         """Create a mean-CVaR optimizer instance.
 
@@ -576,12 +577,15 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             initial_weights: Optional initial portfolio for proportional costs.
             proportional_costs: Optional linear cost vector (requires ``initial_weights``).
+            expected_returns: Optional mean vector for the return targets. Defaults
+                to the probability-weighted scenario mean.
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
-        super()._init_constraints(p @ R, G, h, A, b)
+        mean = p @ R if expected_returns is None else np.asarray(expected_returns, float)
+        super()._init_constraints(mean, G, h, A, b)
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1171e73..f653043 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1396,7 +1396,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            expected_returns=mu_for_frontier,
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
@@ -1681,7 +1682,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            expected_returns=mu_for_cvar,
         )
 
         try:
-- 
2.43.0


From b438c2b922545dff590db0bbac52d3ce3b3360b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 092/117] fix: reject non-finite CVaR return targets before
 they abort the LP solver

---
 pyvallocation/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 16b21bc..de3296a 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -661,6 +661,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
+            if not np.isfinite(return_target):
+                raise ValueError("`return_target` must be a finite scalar.")
             G = self._expected_row if G is None else matrix([G, self._expected_row])
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
-- 
2.43.0


From a37de55ee4a4fe68dfd57d5a73c6fcded41926ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 093/117] fix: reject non-finite relaxed risk parity
 regularisers

---
 pyvallocation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index de3296a..2a035df 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1045,8 +1045,8 @@ class RelaxedRiskParity(_BaseOptimization):
         Solve the relaxed risk parity SOCP for a given ``lambda_reg`` and
         optional target return ``return_target``.
         """
-        if lambda_reg < 0:
-            raise ValueError("`lambda_reg` must be non-negative.")
+        if not (np.isfinite(lambda_reg) and lambda_reg >= 0):
+            raise ValueError("`lambda_reg` must be a finite non-negative scalar.")
         if return_target is not None and (not np.isfinite(return_target)):
             raise ValueError("`return_target` must be a finite scalar.")
 
-- 
2.43.0


From bbae2482d1ae91616ac71e338e112566296ac995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 094/117] fix: reject non-finite transaction costs and holdings

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index f653043..651b622 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1161,6 +1161,8 @@ class PortfolioWrapper:
             arr = np.array(self._by_asset(value, label), dtype=float).ravel()
             if arr.shape != (self.dist.N,):
                 raise ValueError(f"`{label}` must have shape ({self.dist.N},), got {arr.shape}")
+            if not np.all(np.isfinite(arr)):
+                raise ValueError(f"`{label}` contains NaN or Inf values.")
             return arr
 
         return (
-- 
2.43.0


From 31dd4561ee1c2cbce2c2b77b1e8699204c03a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 095/117] fix: mean-CVaR problems reject NaN data and tail
 levels outside (0, 1)

---
 pyvallocation/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 2a035df..47b90f6 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -582,6 +582,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
+        if not 0.0 < alpha < 1.0:
+            raise ValueError("`alpha` must lie strictly between 0 and 1.")
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         mean = p @ R if expected_returns is None else np.asarray(expected_returns, float)
@@ -650,6 +652,9 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             )
 
         self._finalise_expected_row(1 + T + extra_len)
+        for block in (self._c, self._G, self._h, self._A, self._b, self._expected_row):
+            if block is not None and np.any(np.isnan(np.asarray(block, dtype=float))):
+                raise ValueError("Mean-CVaR inputs must not contain NaN values.")
 
     # ---------------------------------------------------------------- #
     # core solver
-- 
2.43.0


From d385466b7431544394c7f9abba5c1b2a500c7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 096/117] fix: frontier selectors reject non-finite targets

---
 pyvallocation/portfolioapi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 651b622..1d4659d 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -458,6 +458,8 @@ class PortfolioFrontier:
                 -   **returns** (float): The expected return of the tangency portfolio.
                 -   **risk** (float): The risk of the tangency portfolio.
         """
+        if not np.isfinite(risk_free_rate):
+            raise ValueError("`risk_free_rate` must be a finite number.")
         if np.all(np.isclose(self.risks, 0)):
             raise InfeasibleOptimizationError(
                 "All portfolios on the frontier have zero risk. Sharpe ratio is undefined."
@@ -562,6 +564,8 @@ class PortfolioFrontier:
         Useful for aligning risk levels across frontiers built with different
         models.
         """
+        if not np.isfinite(target_risk):
+            raise ValueError("`target_risk` must be a finite number.")
         risks = self._risk_vector(risk_label)
         idx = int(np.argmin(np.abs(risks - target_risk)))
         w = self.weights[:, idx]
@@ -601,7 +605,7 @@ class PortfolioFrontier:
             if pct > 100.0:
                 raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
             pct /= 100.0
-        if pct < 0.0 or pct > 1.0:
+        if not 0.0 <= pct <= 1.0:
             raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
         return pct
 
-- 
2.43.0


From 0d4b7c99675d177e58198dd566b6fbdbbd7df50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 097/117] fix: reject frontiers whose metadata does not match
 their portfolios

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1d4659d..b6726ce 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -279,6 +279,8 @@ class PortfolioFrontier:
             raise ValueError(f"risks has {self.risks.shape[0]} entries but returns has {M}.")
         if self.asset_names is not None and len(self.asset_names) != self.weights.shape[0]:
             raise ValueError(f"asset_names length {len(self.asset_names)} != N assets {self.weights.shape[0]}.")
+        if self.metadata is not None and len(self.metadata) != M:
+            raise ValueError(f"metadata has {len(self.metadata)} entries but frontier has {M}.")
         for label, arr in (self.alternate_risks or {}).items():
             if arr.shape[0] != M:
                 raise ValueError(f"alternate_risks['{label}'] has {arr.shape[0]} entries but frontier has {M}.")
-- 
2.43.0


From 5fc8c43525ae4aec525ffd86754e71df7229c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 098/117] fix: check_weights_sum_to_one honours its absolute
 tolerance

---
 pyvallocation/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index 47fe28e..09a6b42 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -74,7 +74,7 @@ def check_weights_sum_to_one(weights: np.ndarray, tolerance: float = 1e-6) -> bo
     Returns:
         bool: ``True`` if weights sum to one within tolerance.
     """
-    return np.isclose(np.sum(weights), 1.0, atol=tolerance)
+    return np.isclose(np.sum(weights), 1.0, rtol=0.0, atol=tolerance)
 
 
 def check_non_negativity(array: np.ndarray, tolerance: float = 1e-9) -> bool:
-- 
2.43.0


From 1af0fea0f754dcd3cba8662d5e9c86264b9303da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 099/117] fix: mean-CVaR problems reject non-finite data and
 expected returns of the wrong length

---
 pyvallocation/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 47b90f6..28ec2f3 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -587,6 +587,11 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         mean = p @ R if expected_returns is None else np.asarray(expected_returns, float)
+        if mean.shape != (N,):
+            raise ValueError(f"`expected_returns` must have shape ({N},), got {mean.shape}.")
+        for values in (R, p, mean) + ((initial_weights, proportional_costs) if self._has_costs else ()):
+            if not np.all(np.isfinite(np.asarray(values, float))):
+                raise ValueError("Mean-CVaR inputs must be finite.")
         super()._init_constraints(mean, G, h, A, b)
 
         base_len = N + 1 + T
-- 
2.43.0


From 883c614eefeaab30ec30aac2fe5199f4957be51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 100/117] fix: tail risk measures reject invalid scenario
 probabilities

---
 pyvallocation/utils/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 95ed7af..eaf9ca9 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
-from ..probabilities import align_probabilities
+from ..probabilities import align_probabilities, resolve_probabilities
 
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
@@ -95,7 +95,7 @@ def portfolio_cvar(
     if isinstance(R, pd.DataFrame):
         w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(align_probabilities(p, R), dtype=float).reshape(-1, 1)
+    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else resolve_probabilities(align_probabilities(p, R), R_arr.shape[0]).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
@@ -159,7 +159,7 @@ def portfolio_var(
     if isinstance(R, pd.DataFrame):
         w = _align_weights(w, R.columns)
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(align_probabilities(p, R), dtype=float).reshape(-1, 1)
+    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else resolve_probabilities(align_probabilities(p, R), R_arr.shape[0]).reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
-- 
2.43.0


From 830fb6238f1fd1bde5c5d069cd9d6026a4aeb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 101/117] fix: effective scenario numbers reject invalid
 probabilities, half-lives reject NaN

---
 pyvallocation/probabilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 4740105..92f5902 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -137,7 +137,7 @@ def generate_exp_decay_probabilities(
 
     if num_observations <= 0:
         raise ValueError("num_observations must be greater than 0.")
-    if half_life <= 0:
+    if not half_life > 0:
         raise ValueError("half_life must be greater than 0.")
     p = np.exp(
         -np.log(2) / half_life * (num_observations - np.arange(1, num_observations + 1))
@@ -221,7 +221,7 @@ def compute_effective_number_scenarios(probabilities: np.ndarray) -> float:
     References:
         :cite:p:`meucci2012ens`
     """
-    p = np.asarray(probabilities, dtype=float).ravel()
+    p = normalize_probability_vector(probabilities)
     # Use convention 0*log(0) = 0 via masking
     mask = p > 0
     entropy = -np.sum(p[mask] * np.log(p[mask]))
@@ -241,4 +241,4 @@ def compute_effective_number_scenarios_hhi(probabilities: np.ndarray) -> float:
     Returns:
         float: Herfindahl-based effective number of scenarios.
     """
-    return float(1.0 / np.sum(np.asarray(probabilities, dtype=float).ravel() ** 2))
+    return float(1.0 / np.sum(normalize_probability_vector(probabilities) ** 2))
-- 
2.43.0


From cf7a7ee4e2984d0bfab5c078288fd0f0171a7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:53 +0000
Subject: [PATCH 102/117] fix: simulate_paths rejects empty horizons and path
 counts

---
 pyvallocation/utils/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 48ecd5d..545f1fd 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -316,6 +316,9 @@ def simulate_paths(
     if R_np.ndim != 2:
         raise ValueError("`R` must be 1D or 2D.")
 
+    if horizon <= 0 or n_paths <= 0:
+        raise ValueError("`horizon` and `n_paths` must be positive.")
+
     T, N = R_np.shape
     weights = resolve_probabilities(align_probabilities(p, R, "p"), T, name="p")
 
-- 
2.43.0


From bc83eeed3dec9b862b846b495127af51a400d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 103/117] fix: reject horizon factors that are not positive and
 finite

---
 pyvallocation/bayesian.py         | 4 ++++
 pyvallocation/utils/projection.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 3dbfa1d..a2af008 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -719,6 +719,8 @@ class RobustBayesPosterior:
 
            S_{\\mu,\\,h} = h^2\\, S_\\mu.
         """
+        if not (np.isfinite(annualization_factor) and annualization_factor > 0):
+            raise ValueError("`annualization_factor` must be a positive finite number.")
         s_mu_np = _to_numpy(self.s_mu)
         scaled = s_mu_np * (annualization_factor ** 2)
         return _wrap_matrix_like(scaled, self.s_mu)
@@ -817,6 +819,8 @@ class RobustBayesPosterior:
         mu_np = _to_numpy(self.mu)
         s_mu_np = _to_numpy(self.s_mu)
         sigma_np = _to_numpy(self.sigma)
+        if not (np.isfinite(annualization_factor) and annualization_factor > 0):
+            raise ValueError("`annualization_factor` must be a positive finite number.")
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 545f1fd..2a48903 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -25,6 +25,8 @@ def project_mean_covariance(
         tuple: Scaled mean vector and covariance matrix.
     """
 
+    if not (np.isfinite(annualization_factor) and annualization_factor > 0):
+        raise ValueError("`annualization_factor` must be a positive finite number.")
     return mu * annualization_factor, cov * annualization_factor
 
 
-- 
2.43.0


From d5cfd661e315b7064e3d9036b4a2d8176bd931ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 104/117] fix: shrinkage of means rejects non-finite inputs

---
 pyvallocation/moments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index daf9252..d20b16c 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -276,6 +276,8 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
             S_arr.shape,
         )
         raise ValueError("Invalid dimensions for Jorion shrinkage.")
+    if not (np.all(np.isfinite(mu_arr)) and np.all(np.isfinite(S_arr)) and np.isfinite(T)):
+        raise ValueError("Jorion shrinkage requires finite inputs.")
 
     S_arr = (S_arr + S_arr.T) / 2
     try:
@@ -980,8 +982,10 @@ def shrink_mean_james_stein(
     N = mu_arr.size
     if Sigma.shape[0] != N:
         raise ValueError("Shape mismatch between `mu_hat` and `S`.")
-    if T <= 0:
+    if not T > 0:
         raise ValueError("`T` must be positive.")
+    if not (np.all(np.isfinite(mu_arr)) and np.all(np.isfinite(Sigma))):
+        raise ValueError("James-Stein shrinkage requires finite inputs.")
 
     if isinstance(target, str):
         if target != "grand_mean":
-- 
2.43.0


From 32934c2d2fd4a54319eee8683339640c31d70a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 105/117] fix: EWMA covariances reject non-finite spans

---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index d20b16c..674b7e2 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -753,8 +753,8 @@ def covariance_ewma(
     if X.ndim != 2:
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     T, N = X.shape
-    if span < 1:
-        raise ValueError("`span` must be at least 1.")
+    if not (np.isfinite(span) and span >= 1):
+        raise ValueError("`span` must be a finite number of at least 1.")
     if T < min_periods:
         raise ValueError(f"Need at least {min_periods} observations, got {T}.")
 
-- 
2.43.0


From d704f2527ad441b59b6625799c2051c9caae14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 106/117] fix: Black-Litterman rejects view confidences outside
 [0, 1] and impossible view covariances

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index f66a9e0..c04ca40 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1420,6 +1420,8 @@ class BlackLittermanProcessor:
 
         # ---------- confidences & \Omega -------------------------------------
         self._conf: Optional[np.ndarray] = self._parse_conf(view_confidences, view_keys)
+        if self._conf is not None and not np.all((self._conf >= 0.0) & (self._conf <= 1.0)):
+            raise ValueError("view_confidences must lie between 0 and 1.")
         self._idzorek_use_tau = bool(idzorek_use_tau)
         self._omega: np.ndarray = self._build_omega(omega, verbose)
 
@@ -1598,6 +1600,8 @@ class BlackLittermanProcessor:
                 raise ValueError(
                     "omega must be 'idzorek', length-K vector, or KxK matrix."
                 )
+            if not np.all(np.isfinite(omega_mat)) or np.any(np.diag(omega_mat) < 0.0):
+                raise ValueError("omega must be a finite view covariance with non-negative variances.")
             if verbose:
                 print("[BL] Using user-provided \\Omega.")
 
-- 
2.43.0


From 78535f8dd08ae99da48b802b2ecd0a0ff3de6e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 107/117] fix: log-normal moment conversions reject mismatched
 or non-finite moments

---
 pyvallocation/utils/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 2a48903..9eb0e99 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -118,6 +118,10 @@ def _covariance_like_mean(mu, cov):
     by name; unlabelled ones are positional.
     """
     mu_np, cov_np = _to_numpy(mu), _to_numpy(cov)
+    if cov_np.shape != mu_np.shape * 2:
+        raise ValueError("The covariance must be a square matrix matching the mean.")
+    if not (np.all(np.isfinite(mu_np)) and np.all(np.isfinite(cov_np))):
+        raise ValueError("The mean and the covariance must be finite.")
     order = slice(None)
     if (
         isinstance(mu, pd.Series)
-- 
2.43.0


From 8066a361b623b25dd1386e191072644d221dc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:40 +0000
Subject: [PATCH 108/117] fix: stress and drawdown reports reject non-finite
 weights

---
 pyvallocation/stress.py            | 2 ++
 pyvallocation/utils/performance.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 74c4bec..a050ede 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -73,6 +73,8 @@ def _align_weights(
         else:
             raise ValueError("`weights` must be 1D or 2D.")
 
+    if not np.all(np.isfinite(matrix)):
+        raise ValueError("`weights` must contain only finite values.")
     if asset_names is not None:
         if idx is None:
             if matrix.shape[0] != len(asset_names):
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 40667d4..7b9726e 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -299,6 +299,8 @@ def drawdown_quantile(
         reprice = _reprice_exp
 
     w = np.asarray(weights, dtype=float).ravel()
+    if not np.all(np.isfinite(w)):
+        raise ValueError("`weights` must contain only finite values.")
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
         p=p, reprice=reprice, seed=seed,
-- 
2.43.0


From fff6eb1ae60f1b59d2fa0c06d6bac44a9ac88c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:52 +0000
Subject: [PATCH 109/117] fix: reject unknown names for automatic POET and
 median-of-means settings

---
 pyvallocation/moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 674b7e2..3ba201f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -531,6 +531,8 @@ def factor_covariance_poet(
     eigvals = eigvals[order]
     eigvecs = eigvecs[:, order]
     if isinstance(k, str):
+        if k != "auto":
+            raise ValueError("`k` must be 'auto' or a positive integer.")
         if eigvals.size <= 1:
             k_sel = 1
         elif eigvals.size == 2:
@@ -556,6 +558,8 @@ def factor_covariance_poet(
     residual = S_scaled - S_factor
     residual = 0.5 * (residual + residual.T)
     if isinstance(thresh, str):
+        if thresh != "auto":
+            raise ValueError("`thresh` must be 'auto' or a non-negative number.")
         off_diag = residual[~np.eye(N, dtype=bool)]
         if off_diag.size == 0:
             tau = 0.0
@@ -1081,6 +1085,8 @@ def robust_mean_median_of_means(
     else:
         rng = np.random.default_rng(random_state)
     if isinstance(n_blocks, str):
+        if n_blocks != "auto":
+            raise ValueError("`n_blocks` must be 'auto' or a positive integer.")
         B = int(np.ceil(np.sqrt(max(T, 1))))
     else:
         if n_blocks <= 0:
-- 
2.43.0


From f42581759183f55a54f73368385079c8c1882cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 110/117] fix: optimizers reject non-finite expected returns

---
 pyvallocation/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 28ec2f3..2f06a34 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -254,6 +254,8 @@ class _BaseOptimization(ABC):
             A, b: Equality constraint matrices such that ``A w = b``.
         """
         self._mean = np.asarray(mean, float)
+        if not np.all(np.isfinite(self._mean)):
+            raise ValueError("The expected returns must be finite.")
         self._I = self._mean.size
         self._G = matrix(G) if G is not None else None
         self._h = matrix(h) if h is not None else None
-- 
2.43.0


From 34ef436fb11fb862d4f5acd9268ba91e8d9c2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:09 +0000
Subject: [PATCH 111/117] fix: Black-Litterman and James-Stein reject
 non-finite priors and negative tau

---
 pyvallocation/moments.py | 2 ++
 pyvallocation/views.py   | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 3ba201f..fd0f4fa 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1000,6 +1000,8 @@ def shrink_mean_james_stein(
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
+        if not np.all(np.isfinite(mu_target)):
+            raise ValueError("Custom target must be finite.")
 
     Sigma = 0.5 * (Sigma + Sigma.T)
     Sigma = ensure_psd_matrix(Sigma)
diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c04ca40..5383eed 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1364,12 +1364,16 @@ class BlackLittermanProcessor:
 
         if self._sigma.shape != (n_assets, n_assets):
             raise ValueError("prior_cov must be square (N, N).")
+        if not np.all(np.isfinite(self._sigma)):
+            raise ValueError("prior_cov must be finite.")
         if not np.allclose(self._sigma, self._sigma.T, atol=1e-8):
             warnings.warn("prior_cov not symmetric; symmetrising.")
             self._sigma = 0.5 * (self._sigma + self._sigma.T)
 
-        if risk_aversion <= 0.0:
-            raise ValueError("risk_aversion must be positive.")
+        if not (np.isfinite(risk_aversion) and risk_aversion > 0.0):
+            raise ValueError("risk_aversion must be positive and finite.")
+        if not (np.isfinite(tau) and tau >= 0.0):
+            raise ValueError("tau must be non-negative and finite.")
         self._tau: float = float(tau)
 
         if pi is not None:
-- 
2.43.0


From 2c8f180dcefa6e20ec99d46e8610cdb3464eddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 112/117] fix: pick the POET factor count at the eigenvalue
 elbow

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index fd0f4fa..8fd242b 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -539,7 +539,7 @@ def factor_covariance_poet(
             k_sel = 1
         else:
             diffs = np.diff(eigvals)
-            accel = diffs[:-1] - diffs[1:]
+            accel = diffs[1:] - diffs[:-1]
             k_sel = int(np.argmax(accel) + 1)
     else:
         if k <= 0:
-- 
2.43.0


From c27a183d9534aca8f0890708a7c5fcb42eb35c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:34 +0000
Subject: [PATCH 113/117] fix: Black-Litterman rejects more than one prior mean
 source

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 5383eed..1967b05 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1376,6 +1376,8 @@ class BlackLittermanProcessor:
             raise ValueError("tau must be non-negative and finite.")
         self._tau: float = float(tau)
 
+        if sum(source is not None for source in (pi, market_weights, prior_mean)) > 1:
+            raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
         if pi is not None:
             self._pi = np.asarray(_by_asset(pi, "pi"), dtype=float).reshape(-1, 1)
             src = "user \\pi"
-- 
2.43.0


From a2b219909ef3bde0c146a518e4ce048781432eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:41 +0000
Subject: [PATCH 114/117] fix: entropy_pooling rejects inequality rows without
 bounds and vice versa

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 1967b05..d1203bf 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -231,6 +231,8 @@ def entropy_pooling(
         minimized and the posterior probabilities are recovered from the optimal
         Lagrange multipliers.
     """
+    if (G is None) != (h is None):
+        raise ValueError("Inequality views need both `G` and `h`.")
     opt_method = method or "TNC"
     if opt_method not in ("TNC", "L-BFGS-B"):
         raise ValueError(
-- 
2.43.0


From abb9a86f244351c6cfe80355e592dbf24c79f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:47 +0000
Subject: [PATCH 115/117] fix: stack small exposures as accurately as large
 ones

---
 pyvallocation/ensembles.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 7fb3374..4d26008 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -200,8 +200,13 @@ def exposure_stacking(
         summed = exposures[:, subset].sum(axis=1)
         linear += (masked @ summed) / max(subset.size, 1)
 
-    qp_P = matrix(2.0 * gram)
-    qp_q = matrix(-2.0 * linear.reshape(-1, 1))
+    # The solver's gap tolerance is absolute: bring the objective to order one so that
+    # small exposures (e.g. spread over many assets) are stacked just as accurately.
+    scale = float(np.trace(gram)) / num_samples
+    if scale <= 0.0:
+        scale = 1.0
+    qp_P = matrix(2.0 * gram / scale)
+    qp_q = matrix(-2.0 * linear.reshape(-1, 1) / scale)
     qp_A = matrix(np.ones((1, num_samples)))
     qp_b = matrix(np.array([[1.0]]))
     qp_G = matrix(-np.identity(num_samples))
-- 
2.43.0


From cc7085f750c0d6962cfa03d3497311304a4eb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:08 +0000
Subject: [PATCH 116/117] fix: risk parity on posterior wrappers meets budgets
 and targets in the reported returns

---
 pyvallocation/portfolioapi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index b6726ce..7275e90 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1789,9 +1789,10 @@ class PortfolioWrapper:
             target_multiplier,
         )
 
+        mu_r, cov_r = self._report_mu_cov()  # budgets and targets hold in the reported return space
         optimizer = RelaxedRiskParity(
-            mean=self.dist.mu,
-            covariance=self.dist.cov,
+            mean=mu_r,
+            covariance=cov_r,
             G=G,
             h=h,
             A=A,
@@ -1799,7 +1800,6 @@ class PortfolioWrapper:
             risk_budgets=self._by_asset(risk_budgets, "risk_budgets"),
         )
 
-        mu_r, cov_r = self._report_mu_cov()
         rp_solution = optimizer.solve(lambda_reg=0.0, return_target=None)
         rp_weights = np.asarray(rp_solution.weights, dtype=float)
         rp_return = float(mu_r @ rp_weights)
@@ -1921,9 +1921,10 @@ class PortfolioWrapper:
             raise ValueError("`lambda_reg` must be non-negative.")
         G, h, A, b, iw, mic, pc = self._resolve_constraints(constraints, costs)
 
+        mu_r, cov_r = self._report_mu_cov()  # budgets and targets hold in the reported return space
         optimizer = RelaxedRiskParity(
-            mean=self.dist.mu,
-            covariance=self.dist.cov,
+            mean=mu_r,
+            covariance=cov_r,
             G=G,
             h=h,
             A=A,
@@ -1931,7 +1932,6 @@ class PortfolioWrapper:
             risk_budgets=self._by_asset(risk_budgets, "risk_budgets"),
         )
 
-        mu_r, cov_r = self._report_mu_cov()
         rp_solution = optimizer.solve(lambda_reg=0.0, return_target=None)
         rp_weights = np.asarray(rp_solution.weights, dtype=float)
         rp_return = float(mu_r @ rp_weights)
-- 
2.43.0


From b439977cde1747d6e316497bfc9ea72b6e89447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:14 +0000
Subject: [PATCH 117/117] fix: mean-variance on posterior wrappers optimises
 the reported returns and risks

---
 pyvallocation/portfolioapi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 7275e90..7fabd09 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1347,13 +1347,13 @@ class PortfolioWrapper:
         if iw is not None and mic is not None:
             logger.info("Computing Mean-Variance frontier with quadratic transaction costs.")
 
+        mu_r, cov_r = self._report_mu_cov()  # optimise the returns and risks that are reported
         optimizer = MeanVariance(
-            self.dist.mu, self.dist.cov, G, h, A, b,
+            mu_r, cov_r, G, h, A, b,
             initial_weights=iw,
             market_impact_costs=mic
         )
         weights = optimizer.efficient_frontier(num_portfolios)
-        mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
         risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
@@ -1630,8 +1630,9 @@ class PortfolioWrapper:
 
         logger.info(f"Solving for minimum variance portfolio with target return >= {return_target:.4f}")
 
+        mu_r, cov_r = self._report_mu_cov()  # optimise the returns and risks that are reported
         optimizer = MeanVariance(
-            self.dist.mu, self.dist.cov, G, h, A, b,
+            mu_r, cov_r, G, h, A, b,
             initial_weights=iw,
             market_impact_costs=mic
         )
@@ -1644,7 +1645,6 @@ class PortfolioWrapper:
                 f"Optimization infeasible for target return {return_target}: {e}"
             ) from e
 
-        mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
         risk = np.sqrt(max(weights.T @ cov_r @ weights, 0.0))
 
-- 
2.43.0

