"""C29: malformed requests are refused with an ordinary error: never answered, never crashing or hanging the process."""
import os
import pickle
import signal
import numpy as np
import pandas as pd
from mc.core import Family
from checks.c21 import NM, MU, COV, W0
from checks.c28 import (BIG, C0, CSV, LIN, PRC, R, Rn, S, SPECS, T, TC, UNI, W, X, m, tree, u, frontier, post, wm, ws)
from pyvallocation import discrete_allocation as da
from pyvallocation import ensembles as en
from pyvallocation import moments as mo
from pyvallocation import optimization as opt
from pyvallocation import probabilities as pb
from pyvallocation import stress as st
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils import functions as fn
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj
from pyvallocation.utils.constraints import Constraints
from pyvallocation.utils.data_helpers import numpy_weights_to_pandas_series, pandas_to_numpy_returns
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, at_least, between, entropy_pooling

LEVEL = "model_checking"
RULE = "case = (public call, one option, one malformed value), with every other option valid; run in a forked child with a time limit, must end with a Python exception (the same call with the valid value must answer)"
ASSUMPTIONS = ["which values are malformed is listed per option (non-finite, out of range, wrong length, wrong kind, unknown name); values the documentation leaves open are not listed"]
nan, inf = float("nan"), float("inf")
NF = [nan, inf, -inf]
NFN = NF + ["a"]


def bad_vec(v, short=True, neg=False):
    """Non-finite entries at every position, wrong length, wrong dimension."""
    v = np.asarray(v, float)
    out = []
    for i in range(v.size):
        for x in NF:
            w = v.copy(); w.flat[i] = x
            out.append(w)
    if short:
        out += [v[:-1], np.concatenate([v, v[-1:]])] + ([v[:1]] if v.size > 2 else [])
    if neg:
        for i in range(v.size):
            w = v.copy(); w.flat[i] = -0.5
            out.append(w)
    return out


def bad_mat(s):
    s = np.asarray(s, float)
    out = []
    for i, j in ((0, 0), (1, 0), (2, 2)):
        for x in NF:
            t = s.copy(); t[i, j] = t[j, i] = x
            out.append(t)
    return out + [s[:2, :2], s[:2], s[:, :2], s[0]]


PBAD = [LIN[:-1], np.append(LIN, 0.1), np.full(T, nan), np.zeros(T), np.where(np.arange(T) == 3, -0.1, LIN), np.where(np.arange(T) == 3, inf, LIN), np.where(np.arange(T) == 3, nan, LIN)]
CBAD = [dict(bounds=(0.6, 0.1)), dict(bounds={"nobody": (0, 1)}), dict(total_weight=nan), dict(bounds=[(0, 1)]), dict(group_constraints=[{"assets": [0, 9], "upper": 0.5}]), dict(bounds=(0.4, 0.5)), dict(total_weight=inf),
        dict(bounds=(nan, 0.5)), dict(relative_bounds=[(0, 7, 1.0)]), dict(relative_bounds=[(0, 1, nan)]), dict(additional_G_h=[(np.ones(2), 1.0)]), dict(additional_A_b=[(np.ones(4), 1.0)]), dict(additional_G_h=[(np.full(3, nan), 1.0)]), dict(additional_A_b=[(np.ones(3), nan)])]
TBAD = [TransactionCosts(initial_weights=np.array([0.3, 0.3]), market_impact_costs=np.ones(3), proportional_costs=np.ones(3))] + [
    TransactionCosts(initial_weights=np.array([0.2, 0.3, x]), market_impact_costs=np.ones(3), proportional_costs=np.ones(3)) for x in NF]
MIBAD = TBAD + [TransactionCosts(initial_weights=np.array([0.2, 0.3, 0.5]), market_impact_costs=v) for v in (np.ones(1), np.ones(2), np.ones(4), np.array([1, nan, 1]), np.array([1, inf, 1]), np.array([1.0, 1, -1]))]
PCBAD = TBAD + [TransactionCosts(initial_weights=np.array([0.2, 0.3, 0.5]), proportional_costs=v) for v in (np.ones(1), np.ones(2), np.ones(4), np.array([1, nan, 1]), np.array([1, inf, 1]), np.array([1.0, 1, -1]))]
RB = bad_vec([0.2, 0.3, 0.5], neg=True) + [[0.0, 0.5, 0.5], [0.0, 0.0, 0.0], [0.5, 0.5, 0.0], "abc"]
GH = C0.to_matrices(3)
CONF = [nan, inf, -0.1, 0.0, 1.0, 1.5, "a"]
NP = [nan, inf, "a", None]
LOT = lambda v: pd.Series(v, index=NM[:3])


def fr(**k):
    return PortfolioFrontier(**{**dict(weights=np.array([[0.5, 0.2], [0.3, 0.3], [0.2, 0.5]]), returns=np.array([0.1, 0.2]), risks=np.array([0.1, 0.3]), risk_measure="Volatility", asset_names=list("pqr")), **k})


def models(name):
    if name == "MeanVariance":
        return lambda **k: opt.MeanVariance(**{**dict(mean=MU[:3], covariance=COV[:3, :3], G=GH[0], h=GH[1], A=GH[2], b=GH[3]), **k}).efficient_portfolio(0.05)
    if name == "MeanCVaR":
        return lambda **k: opt.MeanCVaR(**{**dict(R=Rn, p=LIN, alpha=0.3, G=GH[0], h=GH[1], A=GH[2], b=GH[3]), **k}).efficient_portfolio(None)
    if name == "RobustOptimizer":
        return lambda **k: opt.RobustOptimizer(**{**dict(expected_return=MU[:3], uncertainty_cov=COV[:3, :3], G=GH[0], h=GH[1], A=GH[2], b=GH[3]), **k}).solve_lambda_variant(0.5)
    return lambda **k: opt.RelaxedRiskParity(**{**dict(mean=MU[:3], covariance=COV[:3, :3], G=GH[0], h=GH[1], A=GH[2], b=GH[3]), **k}).solve(lambda_reg=0.3)


CON = {"G": [GH[0][:, :2], GH[0][:-1], GH[0] * nan, GH[0][0]], "h": [GH[1][:-1], GH[1] * nan, np.append(GH[1], 1.0)], "A": [GH[2][:, :2], GH[2] * nan, np.ones((2, 3))], "b": [np.ones(2), GH[3] * nan, GH[3] * inf]}
iw = np.array([0.2, 0.3, 0.5])

D = {
    "min_variance_at_return": (lambda **k: wm().min_variance_at_return(**{"return_target": 0.07, **k}), {"return_target": [nan, inf, "a", 9.0], "constraints": CBAD, "costs": MIBAD}),
    "min_cvar_at_return": (lambda **k: ws().min_cvar_at_return(**{"return_target": 0.0, **k}), {"return_target": [nan, inf, "a", 9.0], "alpha": CONF, "constraints": CBAD, "costs": PCBAD}),
    "variance_frontier": (lambda **k: wm().variance_frontier(**{"num_portfolios": 3, **k}), {"num_portfolios": NP, "constraints": CBAD, "costs": MIBAD}),
    "cvar_frontier": (lambda **k: ws().cvar_frontier(**{"num_portfolios": 3, **k}), {"num_portfolios": NP, "alpha": CONF, "constraints": CBAD, "costs": PCBAD}),
    "robust_lambda_frontier": (lambda **k: wm().robust_lambda_frontier(**{"num_portfolios": 3, **k}), {"num_portfolios": NP, "max_lambda": NFN + [-1.0], "lambdas": [[], [nan], [0.0, inf], [0.5, -0.1], ["a"]], "constraints": CBAD, "costs": PCBAD}),
    "solve_robust_gamma_portfolio": (lambda **k: wm().solve_robust_gamma_portfolio(**{"gamma_mu": 0.1, "gamma_sigma_sq": 0.5, **k}), {"gamma_mu": NFN + [-0.1], "gamma_sigma_sq": NFN + [-0.1, 1e-9], "constraints": CBAD, "costs": PCBAD}),
    "relaxed_risk_parity_portfolio": (lambda **k: wm().relaxed_risk_parity_portfolio(**k), {"lambda_reg": NFN + [-0.1], "target_multiplier": NFN + [-1.0], "return_target": NFN[:3] + ["a"], "risk_budgets": RB, "constraints": CBAD}),
    "relaxed_risk_parity_portfolio_with_diagnostics": (lambda **k: wm().relaxed_risk_parity_portfolio_with_diagnostics(**k), {"lambda_reg": NFN + [-0.1], "target_multiplier": NFN + [-1.0], "return_target": NFN, "risk_budgets": RB}),
    "relaxed_risk_parity_frontier": (lambda **k: wm().relaxed_risk_parity_frontier(**{"num_portfolios": 2, **k}), {"num_portfolios": NP, "max_multiplier": NFN + [-1.0], "lambda_reg": NFN + [-0.1], "target_multipliers": [[nan], [inf], [-1.0], ["a"]], "risk_budgets": RB, "constraints": CBAD}),
    "robust without moments": (lambda **k: (wm() if not k else PortfolioWrapper(k["dist"])).robust_lambda_frontier(lambdas=[0.5]), {"dist": [None, 3, "x", np.eye(3)]}),
    "max_sharpe": (lambda **k: opt.MeanVariance(MU[:3], COV[:3, :3], *GH).max_sharpe(**k), {"risk_free_rate": NFN + [9.0]}),
    "MeanVariance": (models("MeanVariance"), {"mean": bad_vec(MU[:3]), "covariance": bad_mat(COV[:3, :3]), **CON}),
    "MeanVariance costs": (lambda **k: models("MeanVariance")(**{**dict(initial_weights=iw, market_impact_costs=np.ones(3)), **k}), {"initial_weights": bad_vec(iw), "market_impact_costs": bad_vec(np.ones(3))}),
    "MeanCVaR": (models("MeanCVaR"), {"R": [np.where(np.eye(T, 3) > 0, x, Rn) for x in NF] + [Rn[0], Rn[:, :2], Rn[:0]], "p": PBAD, "alpha": CONF, **CON}),
    "MeanCVaR costs": (lambda **k: models("MeanCVaR")(**{**dict(initial_weights=iw, proportional_costs=np.ones(3)), **k}), {"initial_weights": bad_vec(iw), "proportional_costs": bad_vec(np.ones(3), neg=True), "expected_returns": bad_vec(MU[:3])}),
    "RobustOptimizer": (models("RobustOptimizer"), {"expected_return": bad_vec(MU[:3]), "uncertainty_cov": bad_mat(COV[:3, :3]) + [-COV[:3, :3]], **CON}),
    "RobustOptimizer costs": (lambda **k: models("RobustOptimizer")(**{**dict(initial_weights=iw, proportional_costs=np.ones(3)), **k}), {"initial_weights": bad_vec(iw), "proportional_costs": bad_vec(np.ones(3), neg=True)}),
    "RobustOptimizer.lam": (lambda **k: opt.RobustOptimizer(MU[:3], COV[:3, :3], *GH).solve_lambda_variant(**{"lam": 0.5, **k}), {"lam": NFN + [-0.1]}),
    "RobustOptimizer.gamma": (lambda **k: opt.RobustOptimizer(MU[:3], COV[:3, :3], *GH).solve_gamma_variant(**{"gamma_mu": 0.1, "gamma_sigma_sq": 0.5, **k}), {"gamma_mu": NFN + [-0.1], "gamma_sigma_sq": NFN + [-0.1]}),
    "RelaxedRiskParity": (models("RelaxedRiskParity"), {"mean": bad_vec(MU[:3]), "covariance": bad_mat(COV[:3, :3]) + [-COV[:3, :3]], "risk_budgets": RB, **CON}),
    "RelaxedRiskParity.solve": (lambda **k: opt.RelaxedRiskParity(MU[:3], COV[:3, :3], *GH).solve(**k), {"lambda_reg": NFN + [-0.1], "return_target": [nan, inf, "a"]}),
    "AssetsDistribution": (lambda **k: AssetsDistribution(**{**dict(mu=MU[:3], cov=COV[:3, :3]), **k}), {"mu": bad_vec(MU[:3]), "cov": bad_mat(COV[:3, :3]), "asset_names": [["a"], list("abcd")]}),
    "AssetsDistribution scenarios": (lambda **k: AssetsDistribution(**{**dict(scenarios=Rn, probabilities=LIN), **k}), {"scenarios": [np.where(np.eye(T, 3) > 0, x, Rn) for x in NF] + [Rn[:0]], "probabilities": PBAD, "asset_names": [["a"], list("abcd")], "mu": bad_vec(MU[:3])}),
    "from_moments": (lambda **k: PortfolioWrapper.from_moments(**{**dict(mu=MU[:3], cov=COV[:3, :3]), **k}), {"mu": bad_vec(MU[:3]), "cov": bad_mat(COV[:3, :3]), "return_type": ["arith", None, ""], "constraints": CBAD[:5], "bounds": [(0.6, 0.1), [(0, 1)]], "total_weight": [nan, "a"]}),
    "from_scenarios": (lambda **k: PortfolioWrapper.from_scenarios(**{**dict(scenarios=R, probabilities=LIN), **k}), {"scenarios": [R.where(R != R.iloc[0, 0], x) for x in NF], "probabilities": PBAD, "return_type": ["arith"], "constraints": CBAD[:5]}),
    "from_prices": (lambda **k: PortfolioWrapper.from_prices(**{**dict(prices=np.abs(Rn) + 1), **k}), {"prices": [np.where(np.eye(T, 3) > 0, x, np.abs(Rn) + 1) for x in (inf, -inf, 0.0, -1.0)] + [np.abs(Rn[:1]) + 1, Rn[0]]}),
    "from_invariants": (lambda **k: PortfolioWrapper.from_invariants(**{**dict(invariants=R, n_simulations=20, seed=1), **k}), {"horizon": [0, -1, nan, "a"], "n_simulations": [0, -1, nan], "p": PBAD, "reprice": [3, "x"], "invariants": [R * nan, R.iloc[:0]]}),
    "from_robust_posterior": (lambda **k: PortfolioWrapper.from_robust_posterior(**{**dict(posterior=post()), **k}), {"posterior": [None, 3, "x"], "annualization_factor": NFN + [0.0, -1.0]}),
    "PortfolioFrontier": (fr, {"weights": [np.eye(3), np.ones(2)], "returns": [[0.1], [0.1, 0.2, 0.3]], "risks": [[0.1], [0.1, 0.2, 0.3]], "asset_names": [["a"], list("abcd")], "metadata": [[{}]], "alternate_risks": [{"x": np.array([1.0])}]}),
    "tangency": (lambda **k: fr().tangency(**{"risk_free_rate": 0.0, **k}), {"risk_free_rate": NFN}),
    "at_risk": (lambda **k: fr().at_risk(**{"max_risk": 0.2, **k}), {"max_risk": [nan, "a", 0.05], "risk_label": ["x"]}),
    "at_return": (lambda **k: fr().at_return(**{"min_return": 0.15, **k}), {"min_return": [nan, "a", 0.5], "risk_label": ["x"]}),
    "closest_risk": (lambda **k: fr().closest_risk(**{"target_risk": 0.2, **k}), {"target_risk": NFN, "risk_label": ["x"]}),
    "at_percentile": (lambda **k: fr().at_percentile(**{"percentile": 0.5, **k}), {"percentile": NFN + [-0.1, 100.1], "risk_label": ["x"]}),
    "index_at_risk_percentile": (lambda **k: fr().index_at_risk_percentile(**{"percentile": 0.5, **k}), {"percentile": NFN + [-0.1, 100.1], "risk_label": ["x"]}),
    "min_risk": (lambda **k: fr().min_risk(**k), {"risk_label": ["x", ""]}),
    "to_samples": (lambda **k: fr().to_samples(**{"columns": [0], **k}), {"columns": [[5], ["x"]]}),
    "to_frame": (lambda **k: fr().to_frame(**k), {"columns": [[5], ["x"]], "column_labels": [["a"]]}),
    "as_discrete_allocation": (lambda **k: frontier().as_discrete_allocation(**{**dict(column=0, latest_prices=PRC, total_value=3000.0), **k}), {"column": [7, "a", None], "latest_prices": [PRC.iloc[:2], PRC * nan, PRC * 0, -PRC], "total_value": [nan, inf, 0.0, -1.0], "method": ["x", None], "lot_sizes": [LOT([0, 1, 1]), LOT([-1, 1, 1]), LOT([1.5, 1, 1])]}),
    "discretize_weights": (lambda **k: da.discretize_weights(**{**dict(weights=W, latest_prices=PRC, total_value=3000.0), **k}), {"weights": [W * nan, -W, W * 0], "latest_prices": [PRC.iloc[:2], PRC * nan, PRC * 0, -PRC, PRC * inf], "total_value": [nan, inf, 0.0, -1.0, "a"], "method": ["x", None], "lot_sizes": [LOT([0, 1, 1]), LOT([-1, 1, 1]), LOT([1.5, 1, 1]), LOT([nan, 1, 1])]}),
    "allocate_mip": (lambda **k: da.allocate_mip(da.DiscreteAllocationInput(W, PRC, 3000.0), **k), {"cash_penalty": [nan, inf], "max_cash": [nan, -1.0]}),
    "allocate_greedy": (lambda **k: da.allocate_greedy(da.DiscreteAllocationInput(W, PRC, 3000.0), **k), {"fallback_mode": ["x", 3], "max_iterations": ["a"]}),
    "average_exposures": (lambda **k: en.average_exposures(**{"sample_portfolios": X, **k}), {"sample_portfolios": [X * nan, X.iloc[:, :0], np.zeros((2, 2, 2))], "weights": bad_vec([1.0, 2, 3, 4], neg=True) + [np.zeros(4)]}),
    "exposure_stacking": (lambda **k: en.exposure_stacking(**{"sample_portfolios": X, "L": 2, **k}), {"sample_portfolios": [X * nan, X.iloc[:, :0], X.replace(0.5, inf)], "L": [1, 0, -1, nan, 2.5, "a", 9]}),
    "stack_portfolios": (lambda **k: en.stack_portfolios(**{"portfolios": [fr(), fr()], "selections": [[0], [1]], "L": 2, **k}), {"portfolios": [[], [3]], "selections": [[[0]], [[5], [0]], [[0], [1], [0]]], "L": [1, 0, -1, nan, 9]}),
    "average_frontiers": (lambda **k: en.average_frontiers(**{"frontiers": [fr(), fr()], "selections": [[0], [1]], **k}), {"frontiers": [[], [3, 4]], "selections": [[[0]], [[5], [0]], [[], [0]]], "ensemble_weights": bad_vec([1.0, 2.0], neg=True) + [np.zeros(2)]}),
    "exposure_stack_frontiers": (lambda **k: en.exposure_stack_frontiers(**{"frontiers": [fr(), fr()], "selections": [[0], [1]], "L": 2, **k}), {"frontiers": [[], [3, 4]], "selections": [[[0]], [[5], [0]], [[], [0]]], "L": [1, 0, 9]}),
    "assemble": (lambda **k: en.assemble_portfolio_ensemble(**{"specs": SPECS(), "stack_folds": 2, "ensemble": ("stack", "average"), **k}), {"specs": [[], [3]], "ensemble": ["x", ("average", "x")], "combine": ["x", None], "stack_folds": [0, 1, nan], "ensemble_weights": bad_vec([1.0, 2, 3, 4], neg=True)[12:]}),
    "make_portfolio_spec": (lambda **k: en.assemble_portfolio_ensemble([en.make_portfolio_spec(**{**dict(name="a", returns=BIG), **k})], ensemble="average").ensembles, {"optimiser": ["x", None, 3], "selector": ["x", 3], "mean_estimator": ["x"], "cov_estimator": ["x"], "returns": [None, BIG * nan], "optimiser_kwargs": [dict(num_portfolios="a"), dict(nope=1)]}),
    "risk_percentile_selections": (lambda **k: en.risk_percentile_selections(**{"frontiers": [fr()], "percentile": 0.5, **k}), {"percentile": NFN + [-0.1, 100.1], "frontiers": [[3]]}),
    "NIWPosterior": (lambda **k: NIWPosterior(**{**dict(prior_mu=MU[:3], prior_sigma=COV[:3, :3], t0=8, nu0=12), **k}), {"prior_mu": bad_vec(MU[:3]), "prior_sigma": bad_mat(COV[:3, :3]) + [-COV[:3, :3]], "t0": [nan, inf, -1, "a", None, 0], "nu0": [nan, inf, -1, "a", None]}),
    "NIWPosterior.update": (lambda **k: NIWPosterior(MU[:3], COV[:3, :3], 8, 12).update(**{**dict(sample_mu=MU[:3], sample_sigma=COV[:3, :3], n_obs=20), **k}), {"sample_mu": bad_vec(MU[:3]), "sample_sigma": bad_mat(COV[:3, :3]), "n_obs": [nan, inf, -1, "a", None, 0]}),
    "NIW radii": (lambda **k: (lambda q: [q.cred_radius_mu(k.get("p_mu", 0.5)), q.cred_radius_sigma_factor(k.get("p_sigma", 0.5))])(_niw()), {"p_mu": CONF, "p_sigma": CONF}),
    "from_niw": (lambda **k: RobustBayesPosterior.from_niw(**{**dict(prior_mu=MU[:3], prior_sigma=COV[:3, :3], t0=8, nu0=12, sample_mu=MU[:3], sample_sigma=COV[:3, :3], n_obs=20), **k}), {"prior_mu": bad_vec(MU[:3]), "prior_sigma": bad_mat(COV[:3, :3]), "sample_mu": bad_vec(MU[:3]), "sample_sigma": bad_mat(COV[:3, :3]), "t0": [nan, -1, 0, "a"], "nu0": [nan, -1, "a"], "n_obs": [nan, -1, 0, "a"]}),
    "posterior radii": (lambda **k: (lambda q: [q.cred_radius_mu(k.get("p_mu", 0.5)), q.cred_radius_sigma_factor(k.get("p_sigma", 0.5))])(_rbp()), {"p_mu": CONF, "p_sigma": CONF}),
    "mean_uncertainty_cov": (lambda **k: [_rbp().mean_uncertainty_cov_log(**{a: b for a, b in k.items() if a != "exact"}), _rbp().mean_uncertainty_cov_simple(**k)], {"annualization_factor": NFN + [0.0, -1.0]}),
    "chi2_quantile": (lambda **k: chi2_quantile(**{"p": 0.3, "dof": 3, **k}), {"p": [nan, -0.1, 1.1, "a"], "dof": [nan, 0, -1, "a"]}),
    "estimate_sample_moments": (lambda **k: mo.estimate_sample_moments(**{"R": R, "p": LIN, **k}), {"p": PBAD, "R": [R * nan, R.replace(R.iloc[0, 0], inf), R.iloc[:0]]}),
    "shrink_mean_jorion": (lambda **k: mo.shrink_mean_jorion(**{"mu": MU[:3], "S": COV[:3, :3], "T": 40, **k}), {"mu": bad_vec(MU[:3]), "S": bad_mat(COV[:3, :3]), "T": [0, -1, nan]}),
    "shrink_mean_james_stein": (lambda **k: mo.shrink_mean_james_stein(**{"mu_hat": MU[:3], "S": COV[:3, :3], "T": 40, **k}), {"mu_hat": bad_vec(MU[:3]), "S": bad_mat(COV[:3, :3]), "T": [0, -1, nan], "target": ["x", np.ones(2), np.full(3, nan)]}),
    "shrink_covariance_ledoit_wolf": (lambda **k: mo.shrink_covariance_ledoit_wolf(**{"R": Rn, "S_hat": COV[:3, :3], **k}), {"R": [Rn * nan, Rn[0], Rn[:0]], "S_hat": bad_mat(COV[:3, :3]), "target": ["x", None, np.eye(2)]}),
    "shrink_covariance_oas": (lambda **k: mo.shrink_covariance_oas(**{"R": Rn, **k}), {"R": [Rn * nan, Rn[0], Rn[:0], np.where(np.eye(T, 3) > 0, inf, Rn)]}),
    "shrink_covariance_nls": (lambda **k: mo.shrink_covariance_nls(**{"R_or_S": BIG, **k}), {"R_or_S": [BIG * nan, BIG.iloc[:2], BIG.iloc[0]], "dof_correction": [999, nan]}),
    "factor_covariance_poet": (lambda **k: mo.factor_covariance_poet(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:1]], "k": [-1, 0, "x", nan], "thresh": [-0.1, nan, "x"]}),
    "robust_covariance_tyler": (lambda **k: mo.robust_covariance_tyler(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:1]], "shrinkage": [-0.1, 1.1, nan, "a"], "target": ["x", np.eye(2)], "max_iter": [0, -1]}),
    "covariance_ewma": (lambda **k: mo.covariance_ewma(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:0]], "span": [0, -1, nan, inf, 0.5], "min_periods": [999]}),
    "sparse_precision_glasso": (lambda **k: mo.sparse_precision_glasso(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:1]], "alpha": [-0.1, nan, "x", inf]}),
    "robust_mean_huber": (lambda **k: mo.robust_mean_huber(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:0]], }),
    "robust_mean_median_of_means": (lambda **k: mo.robust_mean_median_of_means(**{"R": BIG, "random_state": 1, **k}), {"R": [BIG * nan, BIG.iloc[:0]], "n_blocks": [0, -1, "x", nan]}),
    "estimate_moments": (lambda **k: mo.estimate_moments(**{"R": BIG, **k}), {"R": [BIG * nan, BIG.iloc[:0]], "p": [LIN], "mean_estimator": ["x", None], "cov_estimator": ["x", None], }),
    "black_litterman": (lambda **k: mo.posterior_moments_black_litterman(**{**dict(prior_cov=S, prior_mean=m, mean_views={NM[0]: 0.1}, view_confidences={NM[0]: 0.5}), **k}), {"prior_cov": [S * nan, None, S.iloc[:2, :2]], "prior_mean": [m * nan, m.iloc[:2]], "risk_aversion": NF + [-1.0, 0.0], "tau": NF + [-1.0], "mean_views": [{"zz": 0.1}, {NM[0]: nan}, {NM[0]: inf}, {NM[0]: "a"}, {(NM[0], "zz"): 0.1}], "view_confidences": [{NM[0]: 1.5}, {NM[0]: -0.1}, {NM[0]: nan}, [0.5, 0.5]], "omega": ["x", np.array([[-1.0]]), np.eye(2), np.array([nan])]}),
    "FlexibleViews": (lambda **k: FlexibleViewsProcessor(**{**dict(prior_risk_drivers=R, mean_views={NM[0]: at_least(0.0)}), **k}).get_posterior(), {"prior_probabilities": PBAD, "prior_risk_drivers": [R * nan, R.iloc[:0]], "mean_views": [{"zz": 0.1}, {NM[0]: nan}, {NM[0]: inf}, {NM[0]: 9.0}, {NM[0]: "a"}], "vol_views": [{NM[0]: -0.1}, {NM[0]: nan}, {"zz": 0.1}], "corr_views": [{(NM[0], NM[1]): 1.5}, {(NM[0], NM[1]): nan}, {(NM[0], "zz"): 0.5}, {NM[0]: 0.5}], "skew_views": [{NM[0]: nan}, {"zz": 0.0}], "cvar_views": [{(NM[0], 0.5): nan}, {(NM[0], 1.5): 0.1}, {("zz", 0.5): 0.1}], "quantile_views": [{(NM[0], 1.5): 0.0}, {(NM[0], nan): 0.0}, {("zz", 0.5): 0.0}, {(NM[0], 0.5): nan}]}),
    "FlexibleViews simulated": (lambda **k: FlexibleViewsProcessor(**{**dict(prior_mean=m, prior_cov=S, num_scenarios=50, random_state=1, mean_views={NM[0]: at_least(0.0)}), **k}).get_posterior(), {"num_scenarios": [0, -1, nan, "a"], "prior_mean": [m * nan, m.iloc[:2]], "prior_cov": [S * nan, S.iloc[:2, :2], -S]}),
    "between": (lambda **k: between(k.get("lo", 0.0), k.get("hi", 1.0)), {"lo": [2.0, nan, inf], "hi": [-1.0, nan]}),
    "entropy_pooling": (lambda **k: entropy_pooling(**{**dict(p=UNI, A=np.ones((1, T)), b=np.ones(1)), **k}), {"p": [PBAD[i] for i in (0, 1, 2, 3, 4, 5, 6)], "A": [np.ones((1, 3)), np.full((1, T), nan)], "b": [np.ones(2), np.array([nan]), np.array([5.0])], "method": ["x"]}),
    "stress_test": (lambda **k: st.stress_test(**{**dict(weights=W, scenarios=R, transform=lambda x: 2 * x), **k}), {"weights": [W * nan, W.iloc[:2]], "scenarios": [R * nan, R.iloc[:0]], "probabilities": PBAD, "stressed_probabilities": PBAD, "confidence": CONF, "transform": [3, lambda x: x * nan, lambda x: x[:2], lambda x: x[:, :2]]}),
    "exp_decay_stress": (lambda **k: st.exp_decay_stress(**{**dict(weights=W, scenarios=R), **k}), {"half_life": [0, -1, nan, "a"], "confidence": CONF, "probabilities": PBAD}),
    "kernel_focus_stress": (lambda **k: st.kernel_focus_stress(**{**dict(weights=W, scenarios=R, focus_series=Rn[:, 0]), **k}), {"focus_series": [Rn[:5, 0], Rn[:, 0] * nan], "bandwidth": [0.0, -1.0, nan, "a"], "target": NFN, "confidence": CONF}),
    "entropy_pooling_stress": (lambda **k: st.entropy_pooling_stress(**{**dict(weights=W, scenarios=R, posterior_probabilities=LIN), **k}), {"posterior_probabilities": PBAD, "probabilities": PBAD, "confidence": CONF}),
    "linear_map": (lambda **k: st.linear_map(**{"scale": 2.0, **k})(Rn), {"mean_shift": [np.ones(2), nan, np.full(3, inf)], "scale": [nan, np.ones(2), inf], "matrix": [np.eye(2), np.eye(3) * nan]}),
    "stress_invariants": (lambda **k: st.stress_invariants(**{**dict(invariants=R, weights=W, reprice=pj.reprice_exp, stress_views={NM[0]: at_least(0.0)}, n_simulations=20, seed=1), **k}), {"weights": [W * nan, W.iloc[:2]], "horizon": [0, -1, nan], "n_simulations": [0, -1, nan], "confidence": CONF, "stress_views": [{"zz": 0.1}, {NM[0]: nan}, {NM[0]: 9.0}], "reprice": [3], "invariants": [R * nan]}),
    "exp_decay": (lambda **k: pb.generate_exp_decay_probabilities(**{**dict(num_observations=5, half_life=2), **k}), {"num_observations": [0, -1, nan, "a"], "half_life": [0, -1, nan, "a"]}),
    "uniform": (lambda **k: pb.generate_uniform_probabilities(**{"num_observations": 3, **k}), {"num_observations": [0, -1, nan, "a"]}),
    "kernel": (lambda **k: pb.generate_gaussian_kernel_probabilities(**{**dict(x=Rn[:, 0], v=Rn[:, 1], h=0.4, x_T=0.0), **k}), {"v": [Rn[:, 1] * nan], "h": [0.0, -1.0, nan, "a"], "x_T": NFN}),
    "normalize_probability_vector": (lambda **k: pb.normalize_probability_vector(**{"probabilities": LIN, **k}), {"probabilities": PBAD[2:] + [np.zeros(0)]}),
    "ens": (lambda **k: [pb.compute_effective_number_scenarios(k.get("p", LIN)), pb.compute_effective_number_scenarios_hhi(k.get("p", LIN))], {"p": PBAD[2:]}),
    "performance_report": (lambda **k: pf.performance_report(**{**dict(weights=W, scenarios=R), **k}), {"weights": [W * nan, W.iloc[:2], np.ones(2)], "scenarios": [R * nan, R.iloc[:0]], "probabilities": PBAD, "confidence": CONF}),
    "horizon_report": (lambda **k: pf.horizon_report(**{**dict(weights=W, invariants=R, horizons=(1, 2), n_simulations=20, seed=1), **k}), {"weights": [W * nan, W.iloc[:2]], "horizons": [(0,), (-1, 2), (nan,)], "n_simulations": [0, -1, nan], "p": PBAD, "confidence": CONF, "reprice": [3]}),
    "drawdown_quantile": (lambda **k: pf.drawdown_quantile(**{**dict(weights=W, invariants=R, horizon=3, n_paths=20, seed=1), **k}), {"weights": [W * nan, W.iloc[:2]], "horizon": [0, -1, nan], "n_paths": [0, -1, nan], "p": PBAD, "confidence": [nan, inf, -0.1, 1.5, "a"], "reprice": [3]}),
    "project_scenarios": (lambda **k: pj.project_scenarios(**{**dict(R=R, n_simulations=20, seed=1), **k}), {"R": [R * nan, R.iloc[:0]], "investment_horizon": [0, -1, nan, "a"], "n_simulations": [0, -1, nan], "p": PBAD, "reprice": [3, "x"]}),
    "simulate_paths": (lambda **k: pj.simulate_paths(**{**dict(R=R, n_paths=20, seed=1), **k}), {"R": [R * nan, R.iloc[:0]], "horizon": [0, -1, nan, "a", 1.5], "n_paths": [0, -1, nan], "p": PBAD, "reprice": [3, "x"]}),
    "project_mean_covariance": (lambda **k: pj.project_mean_covariance(**{"mu": MU[:3], "cov": COV[:3, :3], "annualization_factor": 4, **k}), {"annualization_factor": NFN + [0, -1]}),
    "log2simple": (lambda **k: pj.log2simple(**{"mu_g": MU[:3], "cov_g": COV[:3, :3], **k}), {"mu_g": bad_vec(MU[:3]), "cov_g": bad_mat(COV[:3, :3])}),
    "simple2log": (lambda **k: pj.simple2log(**{"mu_r": MU[:3], "cov_r": COV[:3, :3], **k}), {"mu_r": bad_vec(MU[:3]), "cov_r": bad_mat(COV[:3, :3])}),
    "portfolio_variance": (lambda **k: fn.portfolio_variance(**{"w": W0[:3], "cov": COV[:3, :3], **k}), {"w": [W0[:2]], "cov": [COV[:2, :2]]}),
    "portfolio_cvar": (lambda **k: fn.portfolio_cvar(**{"w": W, "R": R, **k}), {"w": [W.iloc[:2], W0[:2]], "p": PBAD, "confidence": CONF}),
    "portfolio_var": (lambda **k: fn.portfolio_var(**{"w": W, "R": R, **k}), {"w": [W.iloc[:2], W0[:2]], "p": PBAD, "confidence": CONF}),
    "pandas_to_numpy_returns": (lambda **k: pandas_to_numpy_returns(**{**dict(dataframe=CSV, date_column="date"), **k}), {"date_column": ["zz"], "price_columns": [["zz"]], "return_calculation_method": ["x", None], "fill_na_method": ["x"], "dataframe": [CSV.iloc[:0], 3]}),
    "numpy_weights_to_pandas_series": (lambda **k: numpy_weights_to_pandas_series(**{"weights": np.ones(3), "asset_names": list("abc"), **k}), {"asset_names": [list("ab"), list("abcd")]}),
    "Constraints": (lambda **k: Constraints(**k).to_matrices(3), {"total_weight": [nan, inf, "a"], "bounds": [(0.6, 0.1), [(0, 1)], {"zz": (0, 1)}, (nan, 1.0), {7: (0, 1)}], "relative_bounds": [[(0, 7, 1.0)], [(0, 1, nan)]], "group_constraints": [[{"assets": [0, 9], "upper": 0.5}]], "additional_G_h": [[(np.ones(2), 1.0)], [(np.full(3, nan), 1.0)]], "additional_A_b": [[(np.ones(2), 1.0)], [(np.ones(3), nan)]]}),
}


def _niw():
    q = NIWPosterior(MU[:3], COV[:3, :3], 8, 12)
    q.update(sample_mu=MU[:3], sample_sigma=COV[:3, :3], n_obs=20)
    return q


def _rbp():
    return RobustBayesPosterior.from_niw(prior_mu=MU[:3], prior_sigma=COV[:3, :3], t0=8, nu0=12, sample_mu=MU[:3], sample_sigma=COV[:3, :3], n_obs=20)


CARRY = {"average_exposures", "chi2_quantile", "estimate_sample_moments", "covariance_ewma", "robust_mean_huber", "robust_mean_median_of_means", "estimate_moments", "linear_map", "performance_report", "project_scenarios", "simulate_paths"}


def visible(a):
    """True when the answer shows a non-finite entry."""
    blocks = [b for b in tree(a) if isinstance(b, np.ndarray) and b.size]
    return bool(blocks) and any(not np.all(np.isfinite(b)) for b in blocks)


def isolated(f, seconds=30):
    """Outcome of f() in a forked child: ('raised', type, text), ('answered', text), ('crashed', status), ('hung',)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            try:
                a = f()
                o = ("answered", repr(a)[:150], visible(a))
            except Exception as exc:  # noqa: BLE001
                o = ("raised", type(exc).__name__, str(exc)[:100])
            os.write(w, pickle.dumps(o))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    st_ = os.waitpid(pid, 0)[1]
    if st_:
        return ("hung",) if os.WIFSIGNALED(st_) and os.WTERMSIG(st_) == signal.SIGALRM else ("crashed", st_)
    return pickle.loads(buf) if buf else ("crashed", "no answer")


def sized(v):
    try:
        v = np.asarray(v, float)
    except (TypeError, ValueError):
        return False
    return v.ndim > 0 and bool(np.all(np.isfinite(v)))


def gen(tier):
    for name, (f, opts) in D.items():
        yield [name]
        for o, vs in opts.items():
            for i in range(len(vs)):
                yield [name, o, i]
        if tier != "quick":  # two malformed options at once are refused as well
            ks = list(opts)
            for a, b in ((a, b) for x, a in enumerate(ks) for b in ks[x + 1:]):
                for i in range(len(opts[a])):
                    for j in range(len(opts[b])):
                        if not (sized(opts[a][i]) and sized(opts[b][j])):  # two consistent sizes are no longer malformed
                            yield [name, a, i, b, j]


def run(case, ctx):
    name, bad = case[0], case[1:]
    f, opts = D[name]
    ctx.state(); ctx.step()
    kw = {bad[k]: opts[bad[k]][bad[k + 1]] for k in range(0, len(bad), 2)}
    r = isolated(lambda: f(**kw))
    if not kw:
        ctx.check(r[0] == "answered", lambda: f"{name}: the valid request is not answered: {r}")
    else:
        # data estimators may carry a NaN through, as long as the answer shows it
        ctx.check(r[0] == "raised" or (r[0] == "answered" and name in CARRY and r[2]), lambda: f"{name}({', '.join(f'{o}={str(v)[:60]!r}' for o, v in kw.items())}) {' '.join(map(str, r))[:170]}")
    ctx.out(r[0] + (":" + r[1] if r[0] == "raised" else ""))


FAMILIES = [Family("refusals", gen, run, "every public call x every numeric or choice option x its malformed values (non-finite at every position, out of range, wrong length or shape, unknown names)")]
