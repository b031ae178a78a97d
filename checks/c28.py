"""C28: options left out mean their documented defaults; shortcut arguments mean the full specification."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data
from checks.c21 import U, NM, MU, COV, SC, W0, PRICE, PR, MIC, PC
from pyvallocation import discrete_allocation as da
from pyvallocation import ensembles as en
from pyvallocation import moments as mo
from pyvallocation import optimization as opt
from pyvallocation import probabilities as pb
from pyvallocation import stress as st
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils import functions as fn
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj
from pyvallocation.utils import validation as va
from pyvallocation.utils import weights as wt
from pyvallocation.utils.constraints import Constraints, build_G_h_A_b
from pyvallocation.utils.data_helpers import pandas_to_numpy_returns
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, at_least

LEVEL = "model_checking"
RULE = "case = (public call, one of its options or all, subset of options left out); outcome compared (relative 1e-6) with the call that spells every documented default out, and with calls that ask for something else"
ASSUMPTIONS = ["defaults are those of the documented signatures at the pinned commit", "numerical code is deterministic in one process"]

u = U(3, range(3), range(3))
T = 12
R = u.f(SC[:T])
Rn = R.to_numpy().copy()
UNI = np.full(T, 1.0 / T)
LIN = np.arange(1.0, T + 1) / (T * (T + 1) / 2)
LABELLED = pd.Series(LIN, index=R.index)
m, S = u.s(MU), u.m(COV)
W = u.s(W0 / W0[:3].sum())
BIG = pd.DataFrame(np.vstack([SC[:, :3] * (1 + 0.1 * k) for k in range(3)]), columns=NM[:3])
C0 = Constraints()
C1 = dict(bounds=(0.1, 0.6))
TC = TransactionCosts(initial_weights=np.array([0.2, 0.3, 0.5]), market_impact_costs=np.array([0.3, 0.1, 0.2]), proportional_costs=np.array([0.4, 0.2, 1.0]))


def wm(**k):
    return PortfolioWrapper.from_moments(m, S, **k)


def ws(**k):
    return PortfolioWrapper.from_scenarios(R, **k)


def see(w):
    return [w.dist.mu, w.dist.cov, w.dist.scenarios, w.dist.probabilities, w.variance_frontier(3)]


def post():
    return RobustBayesPosterior(mu=m, sigma=S, s_mu=S / 9)


def frontier():
    return PortfolioFrontier(weights=np.array([[0.5, 0.2], [0.3, 0.3], [0.2, 0.5]]), returns=np.array([0.1, 0.2]), risks=np.array([0.1, 0.3]), risk_measure="Volatility", asset_names=NM[:3])


PRC = u.s(PRICE)
SPECS = lambda: [en.make_portfolio_spec("a", returns=BIG, optimiser_kwargs=dict(num_portfolios=4), selector="max_return"), en.make_portfolio_spec("b", returns=BIG * 1.3 - 0.001, optimiser_kwargs=dict(num_portfolios=4), selector="min_risk"),
                 en.make_portfolio_spec("c", returns=BIG.iloc[:20] * 0.7, optimiser_kwargs=dict(num_portfolios=4), selector="tangency", selector_kwargs=dict(risk_free_rate=0.0)),
                 en.make_portfolio_spec("d", returns=BIG.iloc[8:] * 0.9, optimiser_kwargs=dict(num_portfolios=4), selector="min_risk")]


def ens(**k):
    r = en.assemble_portfolio_ensemble(SPECS(), **k)
    return [dict(r.ensembles) if isinstance(r.ensembles, dict) else r.ensembles]


X = pd.DataFrame([[0.5, 0.1, 0.2, 0.3], [0.2, 0.6, 0.2, 0.1], [0.3, 0.3, 0.6, 0.6]], index=NM[:3], columns=list("pqrs"))
CSV = pd.DataFrame({"date": pd.date_range("2024-01-01", periods=6), "x": [10.0, 11.0, np.nan, 12.0, 11.5, 12.5], "y": [5.0, 5.5, 5.2, 5.1, np.nan, 5.6]})

# call -> (function of options, {option: (documented default, other values)})
D = {
    "PortfolioWrapper": (lambda **k: see(PortfolioWrapper(AssetsDistribution(mu=m, cov=S), **k)), {"long_only": (True, [False]), "total_weight": (1.0, [2.0, 0.5]), "bounds": (None, [(0.1, 0.6)]), "costs": (None, [TC])}),
    "from_moments": (lambda **k: see(wm(**k)), {"long_only": (True, [False]), "total_weight": (1.0, [2.0]), "bounds": (None, [(0.1, 0.6)]), "return_type": ("simple", ["log"]), "costs": (None, [TC]), "constraints": (None, [C1])}),
    "from_scenarios": (lambda **k: see(ws(**k)), {"long_only": (True, [False]), "total_weight": (1.0, [2.0]), "bounds": (None, [(0.1, 0.6)]), "return_type": ("simple", ["log"]), "probabilities": (UNI, [LABELLED]), "costs": (None, [TC]), "constraints": (None, [C1])}),
    "from_robust_posterior": (lambda **k: (lambda w: [w.dist.mu, w.robust_lambda_frontier(lambdas=[0.0, 1.0])])(PortfolioWrapper.from_robust_posterior(post(), **k)), {"long_only": (True, [False]), "total_weight": (1.0, [2.0]), "bounds": (None, [(0.1, 0.6)]), "annualization_factor": (1.0, [4.0]), "costs": (None, [TC]), "constraints": (None, [C1])}),
    "from_prices": (lambda **k: see(PortfolioWrapper.from_prices(u.f(PR[:12], index=None), **k)), {"long_only": (True, [False]), "total_weight": (1.0, [2.0]), "bounds": (None, [(0.1, 0.6)]), "costs": (None, [TC]), "constraints": (None, [C1])}),
    "from_invariants": (lambda **k: see(PortfolioWrapper.from_invariants(R, seed=3, **k)), {"horizon": (1, [2]), "n_simulations": (5000, [50]), "long_only": (True, [False]), "total_weight": (1.0, [2.0]), "bounds": (None, [(0.1, 0.6)]), "p": (UNI, [LABELLED]), "reprice": (pj.reprice_exp, [lambda x: x]), "costs": (None, [TC]), "constraints": (None, [C1])}),
    "variance_frontier": (lambda **k: wm().variance_frontier(**k), {"num_portfolios": (10, [9, 11]), "constraints": (C0, [C1]), "costs": (None, [TC])}),
    "cvar_frontier": (lambda **k: ws(probabilities=LABELLED).cvar_frontier(**k), {"num_portfolios": (10, [4]), "alpha": (0.05, [0.1, 0.3]), "enforce_convexity": (True, None), "constraints": (C0, [C1]), "costs": (None, [TC])}),
    "cvar_frontier costs": (lambda **k: ws(probabilities=LABELLED).cvar_frontier(5, costs=TC, **k), {"alpha": (0.05, [0.3]), "enforce_convexity": (True, [False])}),
    "min_cvar_at_return": (lambda **k: ws(probabilities=LABELLED).min_cvar_at_return(0.004, **k), {"alpha": (0.05, [0.3, 0.6]), "constraints": (C0, [C1]), "costs": (None, [TC])}),
    "min_variance_at_return": (lambda **k: wm().min_variance_at_return(0.07, **k), {"constraints": (C0, [C1]), "costs": (None, [TC])}),
    "robust_lambda_frontier": (lambda **k: wm().robust_lambda_frontier(**k), {"num_portfolios": (10, [3]), "max_lambda": (2.0, [1.0, 0.0]), "lambdas": (None, [[0.3, 0.6]]), "constraints": (C0, [C1]), "costs": (None, [TC])}),
    "solve_robust_gamma_portfolio": (lambda **k: wm().solve_robust_gamma_portfolio(0.1, 0.5, **k), {"constraints": (C0, [C1]), "costs": (None, [TC])}),
    "relaxed_risk_parity_portfolio": (lambda **k: wm().relaxed_risk_parity_portfolio(**k), {"lambda_reg": (0.2, [2.0]), "target_multiplier": (1.2, [None, 1.05]), "return_target": (None, [0.08]), "risk_budgets": (None, [np.array([0.5, 0.3, 0.2])]), "constraints": (C0, [C1])}),
    "relaxed_risk_parity_portfolio_with_diagnostics": (lambda **k: wm().relaxed_risk_parity_portfolio_with_diagnostics(**k), {"lambda_reg": (0.2, [2.0]), "target_multiplier": (1.2, [None, 1.05]), "return_target": (None, [0.08]), "risk_budgets": (None, [np.array([0.5, 0.3, 0.2])]), "constraints": (C0, [C1])}),
    "relaxed_risk_parity_frontier": (lambda **k: wm().relaxed_risk_parity_frontier(**k), {"num_portfolios": (10, [3]), "max_multiplier": (1.6, [1.2]), "lambda_reg": (0.2, [2.0]), "include_risk_parity": (True, [False]), "target_multipliers": (None, [[1.0, 1.3]]), "constraints": (C0, [C1])}),
    "MeanVariance.max_sharpe": (lambda **k: opt.MeanVariance(MU[:3], COV[:3, :3], *C0.to_matrices(3)).max_sharpe(**k), {"risk_free_rate": (0.0, [0.03])}),
    "RelaxedRiskParity.solve": (lambda **k: opt.RelaxedRiskParity(MU[:3], COV[:3, :3], *C0.to_matrices(3)).solve(**k), {"lambda_reg": (0.0, [2.0]), "return_target": (None, [0.08])}),
    "to_samples": (lambda **k: frontier().to_samples(**k), {"as_frame": (True, [False]), "columns": (None, [[1]])}),
    "as_discrete_allocation": (lambda **k: frontier().as_discrete_allocation(1, PRC, 3000.0, **k), {"method": ("greedy", ["milp"])}),
    "stack_portfolios": (lambda **k: en.stack_portfolios([X[[c]] for c in X], **k), {"L": (3, [2]), "selections": (None, None)}),
    "assemble": (ens, {"ensemble": ("stack", ["average", ("average", "stack")]), "combine": ("selected", ["frontier"]), "ensemble_weights": (None, None), "stack_folds": (None, [2])}),
    "assemble average": (lambda **k: ens(ensemble="average", **k), {"combine": ("selected", ["frontier"]), "ensemble_weights": (None, [[1, 2, 3, 4]])}),
    "make_portfolio_spec": (lambda **k: (lambda s: [en.assemble_portfolio_ensemble([s], ensemble="average").ensembles, s.name])(en.make_portfolio_spec("a", returns=BIG, probabilities=np.arange(1.0, len(BIG) + 1) / np.arange(1.0, len(BIG) + 1).sum(), selector_kwargs=None if k.get("selector") not in (None, "tangency") else dict(risk_free_rate=0.0), **k)),
                            {"use_scenarios": (False, None), "mean_estimator": ("sample", ["jorion"]), "cov_estimator": ("sample", ["ledoit_wolf"]), "optimiser": ("mean_variance", ["cvar"]), "selector": ("tangency", ["min_risk", "max_return"])}),
    "make_ensemble_spec": (lambda **k: (lambda s: en.assemble_portfolio_ensemble([s], ensemble="average").ensembles)(wm().make_ensemble_spec("a", selector_kwargs=None if k.get("selector") not in (None, "tangency") else dict(risk_free_rate=0.0), **k)), {"optimiser": ("mean_variance", ["rrp"]), "selector": ("tangency", ["min_risk", "max_return"])}),
    "stress_test": (lambda **k: st.stress_test(W, R, transform=lambda x: 2 * x, **k), {"confidence": (0.95, [0.8, 0.9]), "demean": (False, [True]), "probabilities": (UNI, [LABELLED]), "stressed_probabilities": (None, [LIN])}),
    "exp_decay_stress": (lambda **k: st.exp_decay_stress(W, R, **k), {"half_life": (60, [5]), "confidence": (0.95, [0.8]), "demean": (False, [True])}),
    "kernel_focus_stress": (lambda **k: st.kernel_focus_stress(W, R, focus_series=Rn[:, 0], **k), {"confidence": (0.95, [0.8]), "demean": (False, [True]), "bandwidth": (None, [0.5]), "target": (None, [0.05])}),
    "entropy_pooling_stress": (lambda **k: st.entropy_pooling_stress(W, R, posterior_probabilities=LIN, **k), {"confidence": (0.95, [0.8]), "demean": (False, [True]), "probabilities": (UNI, [LIN[::-1].copy()])}),
    "stress_invariants": (lambda **k: st.stress_invariants(R, W, pj.reprice_exp, stress_views={NM[0]: at_least(0.01)}, seed=2, **k), {"horizon": (1, [2]), "n_simulations": (5000, [60]), "confidence": (0.95, [0.8]), "demean": (False, [True])}),
    "shrink_covariance_ledoit_wolf": (lambda **k: mo.shrink_covariance_ledoit_wolf(R, mo.estimate_sample_moments(R, UNI)[1], **k), {"target": ("identity", ["constant_correlation"])}),
    "shrink_covariance_oas": (lambda **k: mo.shrink_covariance_oas(BIG, **k), {"assume_centered": (True, [False])}),
    "shrink_covariance_nls": (lambda **k: mo.shrink_covariance_nls(BIG, **k), {"input_is_cov": (False, None), "dof_correction": (0, [3])}),
    "factor_covariance_poet": (lambda **k: mo.factor_covariance_poet(BIG, **k), {"k": ("auto", [0, 2]), "thresh": ("auto", [0.9]), "standardize": (True, [False]), "return_decomp": (False, [True])}),
    "robust_covariance_tyler": (lambda **k: mo.robust_covariance_tyler(BIG, **k), {"shrinkage": (0.0, [0.3]), "target": ("identity", None), "tol": (1e-6, [1e-2]), "max_iter": (200, [1]), "ensure_psd": (True, None)}),
    "covariance_ewma": (lambda **k: mo.covariance_ewma(BIG, **k), {"span": (252, [20]), "min_periods": (1, None)}),
    "sparse_precision_glasso": (lambda **k: mo.sparse_precision_glasso(BIG, **k), {"alpha": ("auto", [1e-3]), "assume_centered": (True, [False]), "return_precision": (False, [True])}),
    "shrink_mean_james_stein": (lambda **k: mo.shrink_mean_james_stein(m, S, 40, **k), {"target": ("grand_mean", [np.zeros(3)])}),
    "robust_mean_huber": (lambda **k: mo.robust_mean_huber(BIG, **k), {"allow_vectorized": (True, None), "tol": (1e-6, None), "max_iter": (200, None)}),
    "robust_mean_median_of_means": (lambda **k: mo.robust_mean_median_of_means(BIG, random_state=1, **k), {"n_blocks": ("auto", [2, 20])}),
    "estimate_moments": (lambda **k: mo.estimate_moments(BIG, **k), {"mean_estimator": ("sample", ["jorion"]), "cov_estimator": ("sample", ["oas"]), "p": (np.full(len(BIG), 1 / len(BIG)), [np.arange(1.0, len(BIG) + 1) / np.arange(1.0, len(BIG) + 1).sum()])}),
    "posterior_moments_black_litterman": (lambda **k: mo.posterior_moments_black_litterman(prior_cov=S, market_weights=W, mean_views={NM[0]: 0.03, NM[2]: 0.1}, view_confidences={NM[0]: 0.5, NM[2]: 0.25}, **k), {"risk_aversion": (1.0, [2.5]), "tau": (0.05, [0.2]), "omega": ("idzorek", None)}),
    "BlackLittermanProcessor": (lambda **k: (lambda b: b.get_posterior())(BlackLittermanProcessor(prior_cov=S, market_weights=W, mean_views={NM[0]: 0.03, NM[2]: 0.1}, **({"omega": "idzorek", "view_confidences": {NM[0]: 0.5, NM[2]: 0.25}} | k))), {"risk_aversion": (1.0, [2.5]), "tau": (0.05, [0.2]), "idzorek_use_tau": (True, [False]), "verbose": (False, None)}),
    "BlackLittermanProcessor tau": (lambda **k: (lambda b: b.get_posterior())(BlackLittermanProcessor(prior_cov=S, market_weights=W, mean_views={NM[0]: 0.03, NM[2]: 0.1}, omega=np.array([0.001, 0.002]), **k)), {"risk_aversion": (1.0, [2.5]), "tau": (0.05, [0.2])}),
    "FlexibleViewsProcessor": (lambda **k: (lambda v: [v.get_posterior(), v.get_posterior_probabilities()])(FlexibleViewsProcessor(prior_risk_drivers=R, mean_views={NM[0]: at_least(0.01)}, vol_views={NM[1]: float(R[NM[1]].std() * 1.3)}, **k)), {"prior_probabilities": (UNI, [LABELLED]), "sequential": (False, [True])}),
    "FlexibleViewsProcessor simulated": (lambda **k: (lambda v: [v.get_posterior(), v.get_posterior_probabilities()])(FlexibleViewsProcessor(prior_mean=m, prior_cov=S, mean_views={NM[0]: 0.06}, random_state=4, **k)), {"num_scenarios": (10000, [500]), "sequential": (False, None)}),
    "chi2_quantile": (lambda **k: chi2_quantile(0.7, 3, **k), {"sqrt": (False, [True])}),
    "posterior.cred_radius_mu": (lambda **k: _from_niw().cred_radius_mu(**k), {"p_mu": (0.75, [0.5, 0.9])}),
    "posterior.cred_radius_sigma_factor": (lambda **k: _from_niw().cred_radius_sigma_factor(**k), {"p_sigma": (0.75, [0.5, 0.9])}),
    "posterior.mean_uncertainty_cov_log": (lambda **k: _from_niw().mean_uncertainty_cov_log(**k), {"annualization_factor": (1.0, [4.0])}),
    "posterior.mean_uncertainty_cov_simple": (lambda **k: _from_niw().mean_uncertainty_cov_simple(**k), {"annualization_factor": (1.0, [4.0]), "exact": (False, [True])}),
    "normalize_probability_vector": (lambda **k: pb.normalize_probability_vector(np.array([0.0, 1.0, 3.0]), **k), {"strictly_positive": (False, [True])}),
    "resolve_probabilities": (lambda **k: pb.resolve_probabilities(np.array([0.0, 1.0, 3.0]), 3, **k), {"strictly_positive": (False, [True])}),
    "allocate_greedy": (lambda **k: da.discretize_weights(weights=W, latest_prices=PRC, total_value=2000.0, **k), {"method": ("greedy", ["milp"]), "lot_sizes": (pd.Series(1, index=NM[:3]), [pd.Series([5, 3, 2], index=NM[:3])])}),
    "allocate_mip": (lambda **k: da.allocate_mip(da.DiscreteAllocationInput(pd.Series([0.34, 0.33, 0.33], index=NM[:3]), pd.Series([97.0, 53.0, 31.0], index=NM[:3]), 333.0), **k), {"cash_penalty": (1.0, [0.0, 50.0]), "max_cash": (None, [1.0, 5.0, 0.0]), "solver_options": (None, None)}),
    "allocate_greedy direct": (lambda **k: da.allocate_greedy(da.DiscreteAllocationInput(W, PRC, 2000.0), **k), {"max_iterations": (None, [0, 1]), "fallback_mode": ("auto", None)}),
    "performance_report": (lambda **k: pf.performance_report(W, R, **k), {"confidence": (0.95, [0.8]), "demean": (False, [True]), "probabilities": (UNI, [LABELLED])}),
    "horizon_report": (lambda **k: pf.horizon_report(W, R, seed=3, **k), {"horizons": ((4, 13, 26, 52), [(1, 2)]), "n_simulations": (5000, [40]), "confidence": (0.95, [0.8]), "p": (UNI, [LABELLED]), "reprice": (pj.reprice_exp, [lambda x: x])}),
    "drawdown_quantile": (lambda **k: pf.drawdown_quantile(W, R, 4, seed=3, **k), {"confidence": (0.95, [0.8]), "n_paths": (1000, [50]), "p": (UNI, [LABELLED]), "reprice": (pj.reprice_exp, [lambda x: x])}),
    "project_scenarios": (lambda **k: pj.project_scenarios(R, seed=3, **k), {"investment_horizon": (2, [1, 3]), "n_simulations": (1000, [50]), "p": (UNI, [LABELLED]), "reprice": (None, [pj.reprice_exp])}),
    "simulate_paths": (lambda **k: pj.simulate_paths(R, seed=3, **k), {"horizon": (2, [1, 3]), "n_paths": (1000, [50]), "p": (UNI, [LABELLED]), "reprice": (None, [pj.reprice_exp])}),
    "reprice_taylor": (lambda **k: pj.reprice_taylor(Rn[:, 0], delta=-7.0, theta=0.3, **k), {"tau": (0.0, [0.5]), "gamma": (None, [50.0])}),
    "build_G_h_A_b": (lambda **k: build_G_h_A_b(3, **k), {"total_weight": (1.0, [None, 2.0]), "long_only": (True, [False]), "bounds": (None, [(0.1, 0.6)]), "return_none_if_empty": (True, None)}),
    "build_G_h_A_b empty": (lambda **k: build_G_h_A_b(3, long_only=False, total_weight=None, **k), {"return_none_if_empty": (True, [False])}),
    "Constraints": (lambda **k: Constraints(**k).to_matrices(3), {"total_weight": (1.0, [None, 2.0]), "long_only": (True, [False]), "bounds": (None, [(0.1, 0.6)]), "relative_bounds": (None, [[(0, 1, 0.2)]]), "group_constraints": (None, [{"g": ([0, 1], 0.2, 0.5)}])}),
    "Constraints.from_dict": (lambda **k: Constraints.from_dict(k).to_matrices(3), {"total_weight": (1.0, [None, 2.0]), "long_only": (True, [False]), "bounds": (None, [(0.1, 0.6)])}),
    "ensure_samples_matrix": (lambda **k: wt.ensure_samples_matrix(np.zeros((3, 0)), **k), {"allow_empty": (False, [True])}),
    "is_psd": (lambda **k: va.is_psd(np.diag([1.0, -1e-9]), **k), {"tolerance": (1e-8, [1e-12])}),
    "check_weights_sum_to_one": (lambda **k: va.check_weights_sum_to_one(np.array([0.5, 0.5 + 5e-7]), **k), {"tolerance": (1e-6, [1e-8])}),
    "check_non_negativity": (lambda **k: va.check_non_negativity(np.array([0.5, -5e-10]), **k), {"tolerance": (1e-9, [1e-12])}),
    "pandas_to_numpy_returns": (lambda **k: pandas_to_numpy_returns(CSV, date_column="date", **k), {"return_calculation_method": ("log", ["simple"]), "fill_na_method": ("ffill", ["bfill"]), "price_columns": (["x", "y"], [["y"]])}),
    "portfolio_cvar": (lambda **k: fn.portfolio_cvar(W, R, **k), {"confidence": (0.95, [0.8]), "demean": (False, [True]), "p": (UNI, [LIN, LIN[::-1].copy(), LIN**4 / (LIN**4).sum(), np.eye(T)[0], np.eye(T)[1]])}),
    "portfolio_var": (lambda **k: fn.portfolio_var(W, R, **k), {"confidence": (0.95, [0.8]), "demean": (False, [True]), "p": (UNI, [LIN, LIN[::-1].copy(), LIN**4 / (LIN**4).sum(), np.eye(T)[0], np.eye(T)[1]])}),
}


def _from_niw():
    return RobustBayesPosterior.from_niw(prior_mu=m, prior_sigma=S, t0=8, nu0=12, sample_mu=m * 1.5, sample_sigma=S * 1.2, n_obs=30)


def tree(x, depth=0):
    """Flat list of numbers (arrays) and texts."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiub":
        return [np.asarray(x, float)]
    if isinstance(x, np.ndarray):
        return [repr(x.tolist())]
    if isinstance(x, (pd.Series, pd.DataFrame)):
        ax = [tuple(map(str, x.index))] + ([tuple(map(str, x.columns))] if x.ndim == 2 else [])
        return [type(x).__name__, repr(ax), np.asarray(x.to_numpy(), float)]
    if isinstance(x, dict):
        return ["dict"] + [y for k, v in x.items() for y in [str(k)] + tree(v, depth + 1)]
    if isinstance(x, (list, tuple)):
        return [f"seq{len(x)}"] + [y for v in x for y in tree(v, depth + 1)]
    if isinstance(x, (bool, np.bool_, str, type(None))):
        return [str(x)]
    if isinstance(x, (float, int, np.floating, np.integer)):
        return [np.asarray(float(x))]
    if callable(x) or depth > 4:
        return ["callable"]
    return [type(x).__name__] + [y for k, v in sorted(vars(x).items()) for y in [k] + tree(v, depth + 1)]


def alike(a, b, tol):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol * 1e-2, equal_nan=True):
            return False
    return True


def bad(t):
    return isinstance(t[0], str) and t[0] == "exc"


def go(f, k):
    try:
        return tree(f(**k))
    except Exception as exc:  # noqa: BLE001  (compared as an outcome)
        return ["exc", type(exc).__name__, str(exc)[:200]]


def gen(tier):
    for name, (f, opts) in D.items():
        ks = list(opts)
        if not ks:
            continue
        for r in range(1, len(ks) + 1):
            for sub in itertools.combinations(ks, r):
                if tier == "quick" and 2 < r < len(ks):
                    continue
                yield [name, list(sub)]


def run(case, ctx):
    name, out = case
    f, opts = D[name]
    full = {k: v[0] for k, v in opts.items()}
    ref = go(f, full)
    ctx.state(); ctx.step(2)
    if not ctx.check(not bad(ref) or name == "ensure_samples_matrix", lambda: f"{name}: the documented defaults are refused: {ref}"):
        return
    got = go(f, {k: v for k, v in full.items() if k not in out})
    ctx.check(alike(got, ref, 1e-6), lambda: f"{name}: leaving out {out} is not the same as {[(k, str(full[k])[:40]) for k in out]}: {str(got)[:150] if bad(got) else 'other result'}")
    if len(out) == 1 and opts[out[0]][1]:
        alt = [go(f, {**full, out[0]: v}) for v in opts[out[0]][1]]
        ctx.step(len(alt))
        ctx.check(not all(alike(a, ref, 1e-9) for a in alt), lambda: f"{name}: {out[0]} makes no difference: {[str(v)[:30] for v in opts[out[0]][1]]} give the default's result")
    ctx.out("same")



# ---------------------------------------------------------------- positional order
POS = {
    "variance_frontier": (lambda *a, **k: wm().variance_frontier(*a, **k), [("num_portfolios", 4)]),
    "cvar_frontier": (lambda *a, **k: wm().cvar_frontier(*a, **k), [("num_portfolios", 1), ("alpha", 0.3), ("seed", 4)]),
    "robust_lambda_frontier": (lambda *a, **k: wm().robust_lambda_frontier(*a, **k), [("num_portfolios", 3), ("max_lambda", 0.7)]),
    "min_variance_at_return": (lambda *a, **k: wm().min_variance_at_return(*a, **k), [("return_target", 0.07)]),
    "min_cvar_at_return": (lambda *a, **k: wm().min_cvar_at_return(*a, **k), [("return_target", 0.07), ("alpha", 0.3), ("seed", 4)]),
    "relaxed_risk_parity_frontier": (lambda *a, **k: wm().relaxed_risk_parity_frontier(*a, **k), [("num_portfolios", 3), ("max_multiplier", 1.3)]),
    "solve_robust_gamma_portfolio": (lambda *a, **k: wm().solve_robust_gamma_portfolio(*a, **k), [("gamma_mu", 0.1), ("gamma_sigma_sq", 0.5)]),
    "MeanVariance": (lambda *a, **k: opt.MeanVariance(*a, **k).efficient_frontier(3), [("mean", MU[:3]), ("covariance", COV[:3, :3]), ("G", -np.eye(3)), ("h", -np.array([0.1, 0.2, 0.05])), ("A", np.ones((1, 3))), ("b", np.array([1.0]))]),
    "MeanCVaR": (lambda *a, **k: opt.MeanCVaR(*a, **k).efficient_frontier(3), [("R", Rn), ("p", LIN), ("alpha", 0.3), ("G", -np.eye(3)), ("h", -np.array([0.1, 0.2, 0.05])), ("A", np.ones((1, 3))), ("b", np.array([1.0]))]),
    "RobustOptimizer": (lambda *a, **k: opt.RobustOptimizer(*a, **k).efficient_frontier([0.0, 0.5]), [("expected_return", MU[:3]), ("uncertainty_cov", COV[:3, :3]), ("G", -np.eye(3)), ("h", -np.array([0.1, 0.2, 0.05])), ("A", np.ones((1, 3))), ("b", np.array([1.0]))]),
    "RobustOptimizer.solve_gamma_variant": (lambda *a, **k: opt.RobustOptimizer(MU[:3], COV[:3, :3], *C0.to_matrices(3)).solve_gamma_variant(*a, **k), [("gamma_mu", 0.1), ("gamma_sigma_sq", 0.5)]),
    "RelaxedRiskParity": (lambda *a, **k: opt.RelaxedRiskParity(*a, **k).solve(lambda_reg=0.3), [("mean", MU[:3]), ("covariance", COV[:3, :3]), ("G", -np.eye(3)), ("h", -np.array([0.1, 0.2, 0.05])), ("A", np.ones((1, 3))), ("b", np.array([1.0]))]),
    "AssetsDistribution": (lambda *a, **k: see(PortfolioWrapper(AssetsDistribution(*a, **k))), [("mu", MU[:3]), ("cov", COV[:3, :3]), ("scenarios", Rn), ("probabilities", LIN), ("asset_names", list("pqr"))]),
    "TransactionCosts": (lambda *a, **k: wm(costs=TransactionCosts(*a, **k)).variance_frontier(3), [("initial_weights", np.array([0.2, 0.3, 0.5])), ("market_impact_costs", np.array([0.3, 0.1, 0.2])), ("proportional_costs", np.array([9.0, 9.0, 9.0]))]),
    "PortfolioFrontier": (lambda *a, **k: PortfolioFrontier(*a, **k), [("weights", np.array([[0.5, 0.2], [0.3, 0.3], [0.2, 0.5]])), ("returns", np.array([0.1, 0.2])), ("risks", np.array([0.3, 0.1])), ("risk_measure", "Volatility"), ("asset_names", list("pqr")), ("metadata", [{"a": 1}, {"a": 2}])]),
    "to_frame": (lambda *a, **k: frontier().to_frame(*a, **k), [("columns", [1])]),
    "to_samples": (lambda *a, **k: frontier().to_samples(*a, **k), [("columns", [1])]),
    "tangency": (lambda *a, **k: frontier().tangency(*a, **k), [("risk_free_rate", 0.02)]),
    "at_risk": (lambda *a, **k: frontier().at_risk(*a, **k), [("max_risk", 0.2)]),
    "at_return": (lambda *a, **k: frontier().at_return(*a, **k), [("min_return", 0.15)]),
    "closest_risk": (lambda *a, **k: frontier().closest_risk(*a, **k), [("target_risk", 0.25)]),
    "at_percentile": (lambda *a, **k: frontier().at_percentile(*a, **k), [("percentile", 0.8)]),
    "index_at_risk_percentile": (lambda *a, **k: frontier().index_at_risk_percentile(*a, **k), [("percentile", 0.8)]),
    "risk_percentiles": (lambda *a, **k: frontier().risk_percentiles(*a, **k), [("risk_label", "Volatility")]),
    "as_discrete_allocation": (lambda *a, **k: frontier().as_discrete_allocation(*a, **k), [("column", 1), ("latest_prices", pd.Series([31.0, 17.0, 11.0], index=NM[:3])), ("total_value", 900.0)]),
    "from_moments": (lambda *a, **k: see(PortfolioWrapper.from_moments(*a, **k)), [("mu", m), ("cov", S)]),
    "from_scenarios": (lambda *a, **k: see(PortfolioWrapper.from_scenarios(*a, **k)), [("scenarios", R)]),
    "from_prices": (lambda *a, **k: see(PortfolioWrapper.from_prices(*a, **k)), [("prices", u.f(PR[:12], index=None))]),
    "DiscreteAllocationInput": (lambda *a, **k: da.allocate_greedy(da.DiscreteAllocationInput(*a, **k)), [("weights", W), ("latest_prices", PRC), ("total_value", 3000.0), ("lot_sizes", pd.Series([2, 1, 3], index=NM[:3]))]),
    "discretize_weights": (lambda *a, **k: da.discretize_weights(*a, **k), [("weights", W), ("latest_prices", PRC), ("total_value", 3000.0)]),
    "allocate_mip": (lambda *a, **k: da.allocate_mip(*a, **k), [("inputs", da.DiscreteAllocationInput(W, PRC, 333.0)), ("cash_penalty", 0.1), ("max_cash", 40.0), ("solver_options", None)]),
    "allocate_greedy": (lambda *a, **k: da.allocate_greedy(*a, **k), [("inputs", da.DiscreteAllocationInput(W, PRC, 3000.0)), ("max_iterations", 1)]),
    "average_exposures": (lambda *a, **k: en.average_exposures(*a, **k), [("sample_portfolios", X), ("weights", np.array([1.0, 2, 3, 4]))]),
    "exposure_stacking": (lambda *a, **k: en.exposure_stacking(*a, **k), [("sample_portfolios", X), ("L", 3)]),
    "stack_portfolios": (lambda *a, **k: en.stack_portfolios(*a, L=2, selections=[[0], [1]], **k), [("portfolios", [frontier(), frontier()])]),
    "average_frontiers": (lambda *a, **k: en.average_frontiers(*a, **k), [("frontiers", [frontier(), frontier()]), ("selections", [[0], [1]])]),
    "exposure_stack_frontiers": (lambda *a, **k: en.exposure_stack_frontiers(*a, **k), [("frontiers", [frontier(), frontier()]), ("L", 2), ("selections", [[0], [1]])]),
    "assemble": (lambda *a, **k: en.assemble_portfolio_ensemble(*a, **k).ensembles, [("specs", SPECS())]),
    "NIWPosterior": (lambda *a, **k: (lambda q: [q.update(sample_mu=m * 1.5, sample_sigma=S * 1.2, n_obs=30), q.get_mu_ce()])(NIWPosterior(*a, **k)), [("prior_mu", m), ("prior_sigma", S), ("t0", 8), ("nu0", 12)]),
    "NIWPosterior.update": (lambda *a, **k: NIWPosterior(m, S, 8, 12).update(*a, **k), [("sample_mu", m * 1.5), ("sample_sigma", S * 1.2), ("n_obs", 30)]),
    "RobustBayesPosterior": (lambda *a, **k: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(*a, **k)).robust_lambda_frontier(lambdas=[0.5]), [("mu", m), ("sigma", S), ("s_mu", S / 9)]),
    "chi2_quantile": (chi2_quantile, [("p", 0.3), ("dof", 4)]),
    "estimate_sample_moments": (mo.estimate_sample_moments, [("R", R), ("p", LIN)]),
    "shrink_mean_jorion": (mo.shrink_mean_jorion, [("mu", m), ("S", S), ("T", 40)]),
    "shrink_covariance_ledoit_wolf": (mo.shrink_covariance_ledoit_wolf, [("R", R), ("S_hat", S), ("target", "constant_correlation")]),
    "shrink_covariance_oas": (mo.shrink_covariance_oas, [("R", BIG + 0.3), ("assume_centered", False)]),
    "factor_covariance_poet": (mo.factor_covariance_poet, [("R", BIG), ("k", 1), ("thresh", 0.3), ("standardize", False)]),
    "shrink_mean_james_stein": (mo.shrink_mean_james_stein, [("mu_hat", m), ("S", S), ("T", 40), ("target", np.array([0.1, 0.0, 0.05]))]),
    "estimate_moments": (mo.estimate_moments, [("R", R), ("p", LIN)]),
    "exp_decay": (pb.generate_exp_decay_probabilities, [("num_observations", 5), ("half_life", 2)]),
    "gaussian_kernel": (pb.generate_gaussian_kernel_probabilities, [("x", Rn[:, 0]), ("v", Rn[:, 1]), ("h", 0.4), ("x_T", 0.01)]),
    "normalize_probability_vector": (pb.normalize_probability_vector, [("probabilities", np.array([1.0, 3.0]))]),
    "resolve_probabilities": (pb.resolve_probabilities, [("probabilities", LIN * 2), ("n_observations", T)]),
    "stress_test": (lambda *a, **k: st.stress_test(*a, transform=lambda x: 2 * x, **k), [("weights", W), ("scenarios", R)]),
    "exp_decay_stress": (st.exp_decay_stress, [("weights", W), ("scenarios", R)]),
    "stress_invariants": (lambda *a, **k: st.stress_invariants(*a, stress_views={NM[0]: at_least(0.01)}, n_simulations=30, seed=2, **k), [("invariants", R), ("weights", W), ("reprice", pj.reprice_exp)]),
    "build_G_h_A_b": (build_G_h_A_b, [("n_assets", 2)]),
    "Constraints": (lambda *a, **k: Constraints(*a, **k).to_matrices(3), [("long_only", False), ("total_weight", 2.0), ("bounds", (0.1, 0.6)), ("relative_bounds", [(0, 1, 1.5)]), ("group_constraints", None), ("additional_G_h", [(np.array([1.0, 0, 2.0]), 0.7)]), ("additional_A_b", [(np.array([1.0, -1.0, 0]), 0.0)])]),
    "pandas_to_numpy_returns": (pandas_to_numpy_returns, [("dataframe", CSV), ("price_columns", ["y"]), ("date_column", "date"), ("return_calculation_method", "simple"), ("fill_na_method", "bfill")]),
    "portfolio_cvar": (fn.portfolio_cvar, [("w", W), ("R", R), ("p", LIN**3 / (LIN**3).sum()), ("confidence", 0.7), ("demean", True)]),
    "portfolio_var": (fn.portfolio_var, [("w", W), ("R", R), ("p", LIN**3 / (LIN**3).sum()), ("confidence", 0.7), ("demean", True)]),
    "portfolio_variance": (fn.portfolio_variance, [("w", W), ("cov", S)]),
    "portfolio_volatility": (fn.portfolio_volatility, [("w", W), ("cov", S)]),
    "scenario_pnl": (pf.scenario_pnl, [("weights", W), ("scenarios", R)]),
    "performance_report": (pf.performance_report, [("weights", W), ("scenarios", R)]),
    "horizon_report": (lambda *a, **k: pf.horizon_report(*a, n_simulations=20, seed=1, **k), [("weights", W), ("invariants", R)]),
    "drawdown_quantile": (lambda *a, **k: pf.drawdown_quantile(*a, n_paths=20, seed=1, **k), [("weights", W), ("invariants", R), ("horizon", 5)]),
    "project_mean_covariance": (pj.project_mean_covariance, [("mu", m), ("cov", S), ("annualization_factor", 4.0)]),
    "log2simple": (pj.log2simple, [("mu_g", m), ("cov_g", S)]),
    "simple2log": (pj.simple2log, [("mu_r", m), ("cov_r", S)]),
    "project_scenarios": (pj.project_scenarios, [("R", R), ("investment_horizon", 3), ("p", LIN), ("n_simulations", 20), ("reprice", pj.reprice_exp), ("seed", 5)]),
    "project_risk_drivers": (pj.project_risk_drivers, [("R", R), ("investment_horizon", 3), ("p", LIN), ("n_simulations", 20), ("reprice", pj.reprice_exp), ("seed", 5)]),
    "simulate_paths": (pj.simulate_paths, [("R", R), ("horizon", 3), ("n_paths", 20), ("p", LIN), ("reprice", pj.reprice_exp), ("seed", 5)]),
    "make_repricing_fn": (lambda *a, **k: pj.make_repricing_fn(*a, **k)(np.array([[0.1], [0.2]])), [("pricing_fn", lambda d: 100 + 3 * np.asarray(d)[..., 0]), ("current_drivers", np.array([0.5]))]),
    "compose_repricers": (lambda *a, **k: pj.compose_repricers(*a, **k)[0](Rn[:4]), [("instruments", {"E": (NM[1], pj.reprice_exp)}), ("invariant_columns", NM[:3])]),
    "is_psd": (va.is_psd, [("matrix", np.diag([1.0, -1e-3])), ("tolerance", 1e-2)]),
    "check_weights_sum_to_one": (va.check_weights_sum_to_one, [("weights", np.array([0.5, 0.6])), ("tolerance", 0.2)]),
    "check_non_negativity": (va.check_non_negativity, [("array", np.array([0.5, -0.1])), ("tolerance", 0.2)]),
    "entropy_pooling": (__import__("pyvallocation.views", fromlist=["x"]).entropy_pooling, [("p", UNI), ("A", np.vstack([np.ones(T), Rn[:, 0]])), ("b", np.array([1.0, float(UNI @ Rn[:, 0]) + 0.002])), ("G", Rn[:, 1][None]), ("h", np.array([float(UNI @ Rn[:, 1]) - 0.001])), ("method", "TNC")]),
    "FlexibleViewsProcessor": (lambda *a, **k: FlexibleViewsProcessor(*a, mean_views={NM[0]: at_least(0.01)}, **k).get_posterior(), [("prior_risk_drivers", R), ("prior_probabilities", LIN)]),
}


def gen_pos(tier):
    for name, (f, args) in POS.items():
        for k in range(1, len(args) + 1):
            yield [name, k]


def run_pos(case, ctx):
    name, k = case
    f, args = POS[name]
    def call(n):
        try:
            return tree(f(*[v for _, v in args[:n]], **dict(args[n:])))
        except Exception as exc:  # noqa: BLE001
            return ["exc", type(exc).__name__, str(exc)[:200]]
    a, b = call(0), call(k)
    ctx.state(); ctx.step(2)
    if ctx.check(not bad(a), lambda: f"{name} by keyword refused: {a}"):
        ctx.check(alike(a, b, 1e-6), lambda: f"{name}: first {k} arguments {[n for n, _ in args[:k]]} by position differ from the same by name: {str(b)[:150] if bad(b) else 'other result'}")
    ctx.out("same")


# ---------------------------------------------------------------- shortcuts
FACT = {
    "from_moments": lambda **k: PortfolioWrapper.from_moments(m, S, **k),
    "from_scenarios": lambda **k: PortfolioWrapper.from_scenarios(R, probabilities=LIN, **k),
    "from_prices": lambda **k: PortfolioWrapper.from_prices(u.f(PR[:12], index=None), **k),
    "from_invariants": lambda **k: PortfolioWrapper.from_invariants(R, n_simulations=40, seed=3, **k),
    "from_robust_posterior": lambda **k: PortfolioWrapper.from_robust_posterior(post(), **k),
    "constructor": lambda **k: PortfolioWrapper(AssetsDistribution(mu=m, cov=S, asset_names=NM[:3]), **k),
}
BND = {"pair": (0.1, 0.6), "per asset": [(0.0, 0.5), (0.2, 0.6), (0.1, 1.0)], "named": {NM[1]: (0.3, 0.4)}, "index": {2: (0.25, 0.5)}, "none": None}


def gen_short(tier):
    for f in FACT:
        for lo in (None, True, False):
            for tw in (None, 1.0, 0.5, 2.0, "free"):
                for b in BND:
                    if f == "from_invariants" and tier == "quick" and b in ("index", "per asset"):
                        continue
                    yield [f, lo, tw, b]


def run_short(case, ctx):
    f, lo, tw, b = case
    mk = FACT[f]
    kw, full = {}, dict(long_only=True, total_weight=1.0, bounds=None)
    if lo is not None:
        kw["long_only"] = full["long_only"] = lo
    if tw is not None:
        kw["total_weight"] = full["total_weight"] = (None if tw == "free" else tw)
    if b != "none":
        kw["bounds"] = full["bounds"] = BND[b]
    prog = (lambda w, **k: w.robust_lambda_frontier(lambdas=[0.0, 1.0], **k)) if f == "from_robust_posterior" else (lambda w, **k: w.variance_frontier(3, **k))
    free = lambda: mk(long_only=False, total_weight=3.0)
    def t(g):
        try:
            return tree(g())
        except Exception as exc:  # noqa: BLE001
            return ["exc", type(exc).__name__]
    ref = t(lambda: prog(mk(constraints=Constraints(**full))))
    forms = {"shortcuts": lambda: prog(mk(**kw)), "dict": lambda: prog(mk(constraints=dict(full))), "short dict": lambda: prog(mk(constraints=dict(kw))) if kw else prog(mk()),
             "per call object": lambda: prog(mk(), constraints=Constraints(**full)), "per call dict": lambda: prog(mk(), constraints=dict(full)),
             "per call over shortcuts": lambda: prog(free(), constraints=dict(full)), "constraints over shortcuts": lambda: prog(mk(constraints=Constraints(**full), long_only=not full["long_only"], total_weight=7.0, bounds=(0.3, 0.35)))}
    if lo is False and tw == "free" and b == "none":  # nothing constrained: the logged fallback is the long-only default, there is no per-call equivalent
        ref = t(lambda: prog(mk()))
        forms = {k: g for k, g in forms.items() if not k.startswith(("per call", "constraints over"))}
        full = dict(long_only=True, total_weight=1.0)
    ctx.state(); ctx.step(1 + len(forms))
    for k, g in forms.items():
        got = t(g)
        ctx.check(alike(got, ref, 1e-6), lambda: f"{f}({kw}): {k} differs from constraints=Constraints({full}): {str(got)[:120] if bad(got) else 'other result'} vs {str(ref)[:120] if bad(ref) else 'a frontier'}")
    if not bad(ref):
        w = prog(mk(**kw)).weights
        if full["total_weight"] is not None:
            ctx.check(np.allclose(w.sum(axis=0), full["total_weight"], atol=1e-5), lambda: f"{f}({kw}) weights sum to {w.sum(axis=0)}")
        if full["long_only"]:
            ctx.check(w.min() > -1e-6, lambda: f"{f}({kw}) gives negative weights {w}")
    ctx.out("refused" if bad(ref) else "answered")


# ---------------------------------------------------------------- grids
LAMS, MULTS = (0.0, 0.3, 1.0, 2.0), (0.0, 1.0, 1.2, 1.5)
FORMS = {"list": list, "tuple": tuple, "array": lambda v: np.array(v), "series": lambda v: pd.Series(v, index=range(5, 5 + len(v))), "iterator": lambda v: iter(list(v))}


def gen_grid(tier):
    for n in (1, 2, 3):
        for c in itertools.product(range(4), repeat=n):
            for f in FORMS if n < 3 else ("list",):
                yield ["lambdas", list(c), f]
                if n < 3 or tier != "quick":
                    yield ["multipliers", list(c), f]
    for n in (1, 2, 3, 5):
        for hi in (0.0, 0.5, 2.0):
            yield ["lambda count", n, hi]
        for hi in (1.0, 1.3, 1.6):
            yield ["multiplier count", n, hi]


def run_grid(case, ctx):
    kind, a, b = case
    ctx.state(); ctx.step(2)
    if kind == "lambda count":
        grid = [b] if a == 1 else ([0.0] if b == 0 else list(np.linspace(0, b, a)))
        f, g = wm().robust_lambda_frontier(a, b), wm().robust_lambda_frontier(lambdas=grid)
        ctx.check(alike(tree(f), tree(g), 1e-6), lambda: f"robust frontier of {a} portfolios up to {b} differs from the grid {grid}: {f.weights} vs {g.weights}")
    elif kind == "multiplier count":
        grid = [b] if a == 1 else list(np.linspace(1.0, b, a))
        f, g = wm().relaxed_risk_parity_frontier(a, b), wm().relaxed_risk_parity_frontier(target_multipliers=grid)
        ctx.check(f.weights.shape[1] == a + 1 and alike(tree(f), tree(g), 1e-5), lambda: f"risk parity frontier of {a} portfolios up to {b} differs from the grid {grid}")
    elif kind == "lambdas":
        v = [LAMS[i] for i in a]
        f = wm().robust_lambda_frontier(lambdas=FORMS[b](v))
        if ctx.check(f.weights.shape[1] == len(v) and sorted(x["lambda"] for x in f.metadata) == sorted(v), lambda: f"robust frontier for lambdas {v} ({b}) holds {[x['lambda'] for x in f.metadata]}"):
            for j, x in enumerate(f.metadata):
                g = wm().robust_lambda_frontier(lambdas=[x["lambda"]])
                ctx.check(np.allclose(f.weights[:, j], g.weights[:, 0], atol=1e-5) and abs(f.returns[j] - g.returns[0]) < 1e-6 and abs(f.risks[j] - g.risks[0]) < 1e-6,
                          lambda: f"lambdas {v}: portfolio {j} (lambda {x['lambda']}) is {f.weights[:, j]}, alone {g.weights[:, 0]}")
    else:
        v = [MULTS[i] for i in a]
        for inc in (True, False):
            f = wm().relaxed_risk_parity_frontier(lambda_reg=0.4, target_multipliers=FORMS[b](v), include_risk_parity=inc)
            want = ([None] if inc else []) + v
            if ctx.check([x["target_multiplier"] for x in f.metadata] == want and f.weights.shape[1] == len(want), lambda: f"multipliers {v} include={inc} ({b}) hold {[x['target_multiplier'] for x in f.metadata]}"):
                for j, x in enumerate(want):
                    w, r, k = wm().relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None) if x is None else wm().relaxed_risk_parity_portfolio(lambda_reg=0.4, target_multiplier=x)
                    ctx.check(np.allclose(f.weights[:, j], w, atol=1e-4) and abs(f.returns[j] - r) < 1e-5 and abs(f.risks[j] - k) < 1e-5,
                              lambda: f"multipliers {v} include={inc}: portfolio {j} ({x}) is {f.weights[:, j]}, alone {w.to_numpy()}")
    ctx.out(kind)


FAMILIES = [Family("defaults", gen, run, "every public call with documented defaults x subsets of its options left out (quick: one, two or all; thorough: every subset); each option also shown to matter"),
            Family("positional", gen_pos, run_pos, "every public call x every prefix of its arguments given by position vs the same by name"),
            Family("shortcuts", gen_short, run_short, "6 wrapper constructions x long_only x total_weight x bounds shortcuts vs Constraints object, dict, per-call constraints and overrides"),
            Family("grids", gen_grid, run_grid, "every grid of up to three lambdas or target multipliers (with repeats, five container forms) and every count x upper end: one portfolio per value, equal to that value alone")]
