"""C21: results follow asset labels, not positions."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data
import pyvallocation as pv
from pyvallocation import moments as mo, stress as st, ensembles as en
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
from pyvallocation.optimization import MeanVariance, MeanCVaR
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper, PortfolioFrontier, TransactionCosts
from pyvallocation.discrete_allocation import discretize_weights
from pyvallocation.utils.functions import portfolio_cvar, portfolio_var, portfolio_variance, portfolio_volatility
from pyvallocation.utils.performance import drawdown_quantile, horizon_report, performance_report, scenario_pnl
from pyvallocation.utils.projection import log2simple, simple2log, project_mean_covariance, project_scenarios
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, at_least

LEVEL = "model_checking"
RULE = "case = (pipeline, order of the primary labelled input, order of the secondary labelled inputs); both orders range over all permutations"
ASSUMPTIONS = ["solver outputs compared within 2e-4, closed forms within 1e-9", "data are generic so that every optimum is unique",
               "unlabelled arrays and index-based constraint rules are permuted by the caller, as their meaning is positional"]

NM = ["delta", "alpha", "gamma", "beta"]
MU = np.array([0.06, 0.11, 0.085, 0.04])
VOL = np.array([0.11, 0.24, 0.17, 0.08])
COR = np.array([[1, 0.3, -0.2, 0.1], [0.3, 1, 0.45, -0.15], [-0.2, 0.45, 1, 0.25], [0.1, -0.15, 0.25, 1]])
COV = COR * np.outer(VOL, VOL)
RNG = np.random.default_rng(7)
SC = np.round(RNG.multivariate_normal(MU / 12, COV / 12, 40) + 0.02 * (RNG.standard_t(4, (40, 4)) * 0.3), 5)
PR = 100 * np.cumprod(1 + np.vstack([np.zeros(4), SC]), axis=0)
TP = np.arange(1, 41) / np.arange(1, 41).sum()
W0 = np.array([0.4, 0.1, 0.3, 0.2])
MIC = np.array([0.02, 0.005, 0.01, 0.03])
PC = np.array([0.004, 0.001, 0.0025, 0.002])
BUD = np.array([0.4, 0.15, 0.25, 0.2])
PRICE = np.array([37.5, 101.0, 12.25, 64.0])
LOTS = np.array([1, 2, 5, 3])
TIX = pd.date_range("2021-01-31", periods=40)


class U:
    """The universe in a given order; s/m/f build labelled vectors, matrices and scenario frames."""

    def __init__(self, n, order, order2):
        self.n = n
        self.o, self.o2 = list(order), list(order2)
        self.names = [NM[i] for i in self.o]
        self.pos = {i: self.o.index(i) for i in range(n)}

    def s(self, v, second=False, name=None):
        o = self.o2 if second else self.o
        return pd.Series([v[i] for i in o], index=[NM[i] for i in o], name=name)

    def m(self, M, second=False):
        o = self.o2 if second else self.o
        nm = [NM[i] for i in o]
        return pd.DataFrame(np.asarray(M)[np.ix_(o, o)], index=nm, columns=nm)

    def f(self, X, second=False, index=TIX):
        o = self.o2 if second else self.o
        return pd.DataFrame(np.asarray(X)[:, o], columns=[NM[i] for i in o], index=None if index is None else index[: len(X)])

    def a(self, v):
        return np.array([v[i] for i in self.o])

    def tp(self, T=40):
        """Scenario probabilities as a series in reversed scenario order."""
        p = TP[:T] / TP[:T].sum()
        s = pd.Series(p, index=TIX[:T])
        return s.iloc[::-1] if self.o2 != sorted(self.o2) else s

    def cons(self, kind=0):
        p, n = self.pos, self.n
        if kind == 0:
            b = [None] * n
            for i in range(n):
                b[p[i]] = [(0.05, 0.6), (0.0, 0.35), (0.1, 0.7), (0.0, 0.5)][i]
            return dict(bounds=b)
        if kind == 1:
            return dict(bounds={p[1]: (0.05, 0.4)}, relative_bounds=[(p[0], p[2], 0.25)], group_constraints={"g": ([p[0], p[1]], 0.3, 0.7)})
        row, eq = np.zeros(n), np.zeros(n)
        row[p[1]], row[p[2]] = 1.0, -2.0
        eq[p[0]], eq[p[1]] = 1.0, -1.5
        return dict(long_only=False, bounds=(-0.3, 0.9), additional_G_h=[(row, 0.1)], additional_A_b=[(eq, 0.05)])

    def costs(self):
        return TransactionCosts(initial_weights=self.s(W0 / W0[: self.n].sum(), True), market_impact_costs=self.s(MIC, True), proportional_costs=self.s(PC, True))


def fr(f):
    """Frontier -> comparable content."""
    out = {"ret": f.returns, "risk": f.risks}
    for k, v in f.alternate_risks.items():
        out["alt " + k] = v
    fra = f.to_frame()
    for j, c in enumerate(fra.columns):
        out[f"w{j}"] = fra[c]
    out["samples"] = f.to_samples(as_frame=True).iloc[:, -1]
    return out


def tri(t):
    return {"w": t[0], "ret": t[1], "risk": t[2]}


def p_mv(u):
    for k in range(3):
        w = PortfolioWrapper.from_moments(u.s(MU), u.m(COV), constraints=u.cons(k))
        f = w.variance_frontier(4)
        yield f"front{k}", fr(f)
        yield f"target{k}", tri(w.min_variance_at_return(0.5 * (f.returns[0] + f.returns[-1])))


def p_mvc(u):
    w = PortfolioWrapper.from_moments(u.s(MU), u.m(COV), constraints=u.cons(0), costs=u.costs())
    yield "front", fr(w.variance_frontier(3))
    yield "target", tri(w.min_variance_at_return(0.07))
    w2 = PortfolioWrapper.from_moments(u.s(MU), u.m(COV))
    yield "percall", fr(w2.variance_frontier(3, constraints=u.cons(1), costs=u.costs()))
    yield "log", fr(PortfolioWrapper.from_moments(u.s(MU), u.m(COV), return_type="log").variance_frontier(3))
    d = AssetsDistribution(mu=u.a(MU), cov=u.m(COV), asset_names=u.names)
    yield "dist", fr(PortfolioWrapper(d, constraints=u.cons(0), costs=u.costs()).variance_frontier(3))


def p_cvar(u):
    T = 12
    w = PortfolioWrapper.from_scenarios(u.f(SC[:T]), probabilities=u.tp(T), constraints=u.cons(0))
    f = w.cvar_frontier(3, alpha=0.3)
    yield "front", fr(f)
    yield "target", tri(w.min_cvar_at_return(0.5 * (f.returns[0] + f.returns[-1]), alpha=0.3))
    yield "cost", fr(w.cvar_frontier(2, alpha=0.4, costs=u.costs()))
    yield "mv", fr(w.variance_frontier(3))


def p_prices(u):
    w = PortfolioWrapper.from_prices(u.f(PR[:20], index=None), constraints=u.cons(1))
    yield "mv", fr(w.variance_frontier(3))
    yield "log", fr(PortfolioWrapper.from_scenarios(u.f(SC[:15]), probabilities=u.tp(15), return_type="log").variance_frontier(3))


def p_rrp(u):
    w = PortfolioWrapper.from_moments(u.s(MU), u.m(COV))
    for kw in (dict(lambda_reg=0.0, target_multiplier=None), dict(lambda_reg=0.2), dict(lambda_reg=0.1, return_target=0.08, constraints=u.cons(0))):
        b = u.s(BUD / BUD[: u.n].sum(), True)
        for bud in (None, b):
            ww, r, k, d = w.relaxed_risk_parity_portfolio_with_diagnostics(risk_budgets=bud, **kw)
            o = {"w": ww, "ret": r, "risk": k}
            for key in ("achieved_return", "risk_parity_return", "portfolio_variance", "target_return"):
                o[key] = np.nan if d[key] is None else d[key]
            for key in ("risk_contributions", "risk_contributions_pct", "marginal_risk", "risk_parity_weights"):
                o[key] = pd.Series(np.asarray(d[key]), index=u.names)
            yield f"{kw.get('lambda_reg')}{bud is None}", o
    yield "front", fr(w.relaxed_risk_parity_frontier(2, max_multiplier=1.1, risk_budgets=u.s(BUD, True)))


def p_robust(u):
    w = PortfolioWrapper.from_moments(u.s(MU), u.m(COV), constraints=u.cons(0), costs=u.costs())
    yield "lam", fr(w.robust_lambda_frontier(lambdas=[0.1, 0.5, 2.0], return_cov=u.m(2 * COV, True)))
    yield "gam", tri(w.solve_robust_gamma_portfolio(0.3, 0.03))


def p_niw(u):
    n = u.n
    niw = NIWPosterior(prior_mu=u.s(MU), prior_sigma=u.m(COV), t0=20, nu0=25)
    niw.update(sample_mu=u.s(MU[::-1][:n] if n == 4 else np.roll(MU[:n], 1), True), sample_sigma=u.m(1.3 * COV + 0.001 * np.eye(4), True), n_obs=40)
    yield "mom", {"mu": niw.get_mu_ce(), "S": niw.get_S_mu(), "C": niw.get_sigma_ce()}
    rb = RobustBayesPosterior.from_niw(
        prior_mu=u.s(MU), prior_sigma=u.m(COV), t0=20, nu0=25, sample_mu=u.s(MU[::-1][:n] if n == 4 else np.roll(MU[:n], 1), True),
        sample_sigma=u.m(1.3 * COV + 0.001 * np.eye(4), True), n_obs=40)
    yield "simple", {"S": rb.mean_uncertainty_cov_simple(annualization_factor=2.0, exact=True), "L": rb.mean_uncertainty_cov_log(annualization_factor=2.0)}
    manual = RobustBayesPosterior(mu=u.s(MU), sigma=u.m(COV, True), s_mu=u.m(COV[::-1, ::-1] / 9 if n == 4 else np.diag([0.02, 0.001, 0.006, 0.01]), True))
    for tag, post in (("niw", rb), ("manual", manual)):
        w = PortfolioWrapper.from_robust_posterior(post, constraints=u.cons(0), annualization_factor=1.5)
        yield tag, fr(w.robust_lambda_frontier(lambdas=[0.2, 1.0]))
        yield tag + "g", tri(w.solve_robust_gamma_portfolio(0.3, 0.5))


def p_inv(u):
    X = SC[:10] * 0.5
    for kw in (dict(), dict(p=u.tp(10)), dict(reprice=lambda y: 2 * y)):
        w = PortfolioWrapper.from_invariants(u.f(X), horizon=2, n_simulations=60, seed=5, **kw)
        yield f"all{sorted(kw)}", {"mu": pd.Series(w.dist.mu, index=w.dist.asset_names), "sc": w.dist.scenarios[:, [w.dist.asset_names.index(x) for x in NM if x in w.dist.asset_names]]}
    rep = {NM[i]: (lambda k: (lambda y: (1 + k) * y))(i) for i in u.o2}
    w = PortfolioWrapper.from_invariants(u.f(X), horizon=2, n_simulations=60, seed=5, p=u.tp(10), reprice=rep)
    yield "dict", {"mu": pd.Series(w.dist.mu, index=w.dist.asset_names)}
    s = project_scenarios(u.f(X), investment_horizon=3, n_simulations=30, seed=2, p=u.tp(10))
    yield "proj", {"cols": s.T}


def p_alloc(u):
    n = u.n
    w = u.s(np.array([0.36, 0.24, 0.25, 0.15])[:n] / np.array([0.36, 0.24, 0.25, 0.15])[:n].sum(), name="x")
    for second in (False, True):
        for lots in (None, u.s(LOTS, True), {NM[i]: int(LOTS[i]) for i in u.o2}):
            for prices in (u.s(PRICE, second), {NM[i]: PRICE[i] for i in (u.o2 if second else u.o)}):
                for method in ("greedy", "milp"):
                    r = discretize_weights(weights=w, latest_prices=prices, total_value=3977.0, method=method, lot_sizes=lots)
                    sh = r.as_series()
                    yield f"{method}{second}{type(lots).__name__}{type(prices).__name__}", {"sh": sh.reindex([NM[i] for i in range(n)]).fillna(0.0), "cash": r.leftover_cash, "te": r.tracking_error}
    f = PortfolioFrontier(weights=u.a(w.reindex(NM[:n]).to_numpy()).reshape(-1, 1), returns=np.array([0.1]), risks=np.array([0.1]), risk_measure="Volatility", asset_names=u.names)
    r = f.as_discrete_allocation(0, u.s(PRICE, True), 3977.0)
    yield "frontier", {"sh": r.as_series().reindex([NM[i] for i in range(n)]).fillna(0.0), "cash": r.leftover_cash}


def p_bl(u):
    n = u.n
    for base in (dict(pi=u.s(MU, True)), dict(market_weights=u.s(W0 / W0[:n].sum(), True), risk_aversion=2.5), dict(prior_mean=u.s(MU, True))):
        for views, conf in (({NM[0]: 0.09, NM[2]: 0.01}, {NM[2]: 0.3, NM[0]: 0.8}), ({(NM[1], NM[0]): 0.03, NM[0]: 0.02}, None)):
            keys = list(views)[::-1] if u.o2 != sorted(u.o2) else list(views)
            kw = dict(mean_views={k: views[k] for k in keys})
            if conf:
                kw["view_confidences"] = conf
            bl = BlackLittermanProcessor(prior_cov=u.m(COV), **base, **kw)
            m, C = bl.get_posterior()
            yield f"{sorted(base)}{conf is None}", {"m": m, "C": C}
        m, C = BlackLittermanProcessor(prior_cov=u.m(COV), mean_views=u.s(MU[::-1][4 - n:] if n == 4 else np.roll(MU[:n], 1), True), **base).get_posterior()
        yield f"{sorted(base)}full", {"m": m, "C": C}


def p_fv(u):
    T = 14
    X = SC[:T]
    m, sd = X.mean(0), X.std(0)
    sel = lambda d: {k: d[k] for k in ([NM[i] for i in u.o2 if NM[i] in d] + [k for k in d if not isinstance(k, str)])}
    for tag, kw in (("mean", dict(mean_views=sel({NM[0]: m[0] + 0.2 * sd[0], NM[1]: (">=", m[1] + 0.1 * sd[1])}))),
                    ("vec", dict(mean_views=u.s(m + 0.05 * sd, True))),
                    ("volcorr", dict(vol_views=sel({NM[1]: 1.1 * sd[1]}), corr_views={(NM[0], NM[1]) if u.o2[0] < u.o2[1] else (NM[1], NM[0]): 0.2})),
                    ("rank", dict(rank_mean=[NM[2], NM[0]])),
                    ("var", dict(cvar_views=sel({NM[0]: (-0.03, 0.2)})))):
        for seq in (False, True):
            try:
                fv = FlexibleViewsProcessor(prior_risk_drivers=u.f(X), prior_probabilities=u.tp(T), sequential=seq, **kw)
            except ValueError as e:
                yield tag + str(seq), {"err": float(len(str(e)) > 0)}
                continue
            mm, CC = fv.get_posterior()
            yield tag + str(seq), {"q": np.asarray(fv.get_posterior_probabilities()).ravel(), "m": mm, "C": CC}


def p_ens(u):
    n = u.n
    cols = ["p", "q", "r", "s"]
    M = np.array([[0.5, 0.1, 0.2, 0.3], [0.2, 0.6, 0.2, 0.1], [0.3, 0.3, 0.6, 0.6], [0.1, 0.2, 0.3, 0.4]])[:n]
    M = M / M.sum(0)
    df = pd.DataFrame(M, index=NM[:n], columns=cols).iloc[u.o]
    wts = pd.Series([1.0, 2.0, 3.0, 4.0], index=cols)
    perm = [c for c in np.array(cols)[[i for i in u.o2] + list(range(len(u.o2), 4))]]
    yield "avg", {"w": en.average_exposures(df, wts.loc[perm])}
    yield "stack", {"w": en.exposure_stacking(df, L=2)}
    R = u.f(SC[:25])
    specs = [en.make_portfolio_spec("mv", returns=R, probabilities=u.tp(25), optimiser_kwargs=dict(num_portfolios=3, constraints=u.cons(0)), selector="tangency"),
             en.make_portfolio_spec("rr", returns=R, optimiser="rrp", optimiser_kwargs=dict(num_portfolios=2), selector="min_risk"),
             en.make_portfolio_spec("sc", returns=R, probabilities=u.tp(25), use_scenarios=True, optimiser_kwargs=dict(num_portfolios=3), selector="max_return")]
    ew = pd.Series([1.0, 3.0, 2.0], index=["mv", "rr", "sc"]).iloc[[2, 0, 1]]
    for comb in ("selected", "frontier"):
        r = en.assemble_portfolio_ensemble(specs, ensemble=("average", "stack"), combine=comb, ensemble_weights=ew)
        yield comb, {"avg": r.average, "stk": r.stacked, "sel": r.selections}
    # specifications whose frontiers list the assets in different orders
    if True:
        other = en.make_portfolio_spec("alt", returns=u.f(SC[:25], True), optimiser_kwargs=dict(num_portfolios=3), selector="min_risk")
        r = en.assemble_portfolio_ensemble([specs[0], other, specs[2]], ensemble=("average", "stack"))
        yield "mixed", {"avg": r.average, "stk": r.stacked, "sel": r.selections}


def p_stress(u):
    n = u.n
    w = u.s(W0 / W0[:n].sum(), True, "pf")
    W = pd.DataFrame({"x": w, "y": w.to_numpy()[::-1] if False else u.s(BUD, True)})
    R = u.f(SC[:20])
    for ww in (w, W, w.to_dict()):
        kw = dict(probabilities=u.tp(20), confidence=0.8)
        yield f"t{type(ww).__name__}", {"r": st.stress_test(ww, R, stressed_probabilities=u.tp(20), transform=lambda X: X * 1.5 - 0.01, **kw).to_numpy()}
        yield f"d{type(ww).__name__}", {"r": st.exp_decay_stress(ww, R, half_life=5, **kw).to_numpy()}
        yield f"k{type(ww).__name__}", {"r": st.kernel_focus_stress(ww, R, focus_series=pd.Series(np.arange(20) % 7, index=TIX[:20]).iloc[::-1], bandwidth=2.0, target=3.0, **kw).to_numpy()}
        yield f"i{type(ww).__name__}", {"r": st.stress_invariants(R, ww, lambda y: y, stress_views={NM[0]: at_least(0.012)}, horizon=2, n_simulations=100, seed=3).to_numpy()}
    yield "pnl", {"a": scenario_pnl(w, R).to_numpy(), "b": scenario_pnl(W, R).to_numpy(), "c": np.asarray(scenario_pnl(w.to_dict(), R))}
    yield "perf", {"a": performance_report(w, R, probabilities=u.tp(20), confidence=0.8).to_numpy(), "b": performance_report(W[["x"]], R).to_numpy()}
    yield "dd", {"a": drawdown_quantile(w, R, 4, n_paths=50, p=u.tp(20), seed=4).to_numpy(), "h": horizon_report(w, R, horizons=(1, 3), n_simulations=50, p=u.tp(20), seed=4).to_numpy()}
    yield "risk", {"v": portfolio_variance(w, u.m(COV)), "s": portfolio_volatility(W, u.m(COV)), "c": portfolio_cvar(W, R, u.tp(20), 0.8), "q": portfolio_var(w, R, u.tp(20), 0.8)}


def p_moments(u):
    R = u.f(SC)
    p = u.tp(40)
    m, S = mo.estimate_sample_moments(R, p)
    yield "sample", {"m": m, "S": S}
    yield "jorion", {"m": mo.shrink_mean_jorion(u.s(m.reindex(NM[: u.n]).to_numpy()), u.m(S.loc[NM[: u.n], NM[: u.n]].to_numpy()), 40), "js": mo.shrink_mean_james_stein(u.s(m.reindex(NM[: u.n]).to_numpy()), u.m(S.loc[NM[: u.n], NM[: u.n]].to_numpy()), 40)}
    for k in ("identity", "constant_correlation"):
        yield k, {"S": mo.shrink_covariance_ledoit_wolf(R, S, target=k)}
    yield "oas", {"S": mo.shrink_covariance_oas(R)}
    yield "nls", {"S": mo.shrink_covariance_nls(R)}
    yield "tyler", {"S": mo.robust_covariance_tyler(R)}
    yield "ewma", {"S": mo.covariance_ewma(R, span=10)}
    yield "huber", {"m": mo.robust_mean_huber(R), "mom": mo.robust_mean_median_of_means(R, n_blocks=5, random_state=1)}
    yield "glasso", {"S": mo.sparse_precision_glasso(R, alpha=1e-4)}
    for me, ce in itertools.product(("sample", "jorion", "james_stein", "huber"), ("sample", "ledoit_wolf", "oas", "ewma", "tyler")):
        mm, SS = mo.estimate_moments(R, p if ce in ("sample",) else None, mean_estimator=me, cov_estimator=ce)
        yield me + ce, {"m": mm, "S": SS}
    ms, Ss = log2simple(u.s(MU), u.m(COV, True))
    mg, Sg = simple2log(u.s(MU), u.m(COV, True))
    yield "ls", {"m": ms, "S": Ss, "mg": mg, "Sg": Sg}
    mp, Sp = project_mean_covariance(u.s(MU), u.m(COV), annualization_factor=3)
    yield "pmc", {"m": mp, "S": Sp}


PIPES = {f.__name__[2:]: f for f in (p_mv, p_mvc, p_cvar, p_prices, p_rrp, p_robust, p_niw, p_inv, p_alloc, p_bl, p_fv, p_ens, p_stress, p_moments)}
EXACT = {"inv", "bl", "stress", "alloc", "moments", "niw"}
_REF = {}


def canon(v, n):
    """Order anything labelled by asset name."""
    full = NM[:n]
    if isinstance(v, (list, tuple)):
        return [canon(x, n) for x in v]
    if isinstance(v, pd.Series):
        if set(v.index) != set(full) or len(v) != n:
            return ("labels", sorted(map(str, v.index)))
        return v.reindex(full).to_numpy(dtype=float)
    if isinstance(v, pd.DataFrame):
        if set(v.index) != set(full) or len(v.index) != n:
            return ("labels", sorted(map(str, v.index)))
        v = v.reindex(full)
        if set(v.columns) == set(full):
            v = v[full]
        return v.to_numpy(dtype=float)
    return np.asarray(v, dtype=float)


def reference(pipe, n):
    if (pipe, n) not in _REF:
        u = U(n, range(n), range(n))
        _REF[(pipe, n)] = {k: {kk: canon(vv, n) for kk, vv in d.items()} for k, d in PIPES[pipe](u)}
    return _REF[(pipe, n)]


def gen1(tier):
    for n in (3, 4):
        P = data.perms(n)
        for pipe in PIPES:
            for o in P:
                for o2 in P:
                    heavy = pipe in ("ens", "rrp", "moments", "stress", "alloc", "fv", "niw", "mv", "mvc")
                    if n == 4:
                        if tier != "thorough" and (P.index(o) * 24 + P.index(o2)) % (23 if heavy else 11) != 5:
                            continue
                    yield [pipe, n, list(o), list(o2)]


OTHER = {"integers": [7, 5, 1, 0], "positions out of order": [2, 0, 3, 1], "digits": ["2", "0", "3", "1"], "dates": list(pd.to_datetime(["2024-03-01", "2023-01-02", "2025-05-05", "2022-07-07"])),
         "mixed": [2.5, "x", 1, "0"], "booleans and blanks": [True, "", " x ", "a,b"]}


def gen_types(tier):
    for nm in OTHER:
        for n in (3, 4):
            for pipe in PIPES:
                for k, o in enumerate(([0, 1, 2, 3][:n], [3, 2, 1, 0][-n:], [1, 2, 0, 3][:n])):
                    if tier == "thorough" or k != 1 + (n == 4):
                        yield [pipe, n, o, [1, 0, 2, 3][:n], nm]


def run_types(case, ctx):
    pipe, n, o, o2, nm = case
    reference(pipe, n)
    keep = NM[:]
    try:
        NM[:] = OTHER[nm]
        run1([pipe, n, o, o2], ctx)
    finally:
        NM[:] = keep


def run1(case, ctx):
    pipe, n, o, o2 = case
    want = reference(pipe, n)
    seen = set()
    for k, d in PIPES[pipe](U(n, o, o2)):
        seen.add(k)
        ctx.state(); ctx.step()
        if not ctx.check(k in want and set(d) == set(want[k]), f"{case} {k}: result keys {sorted(d)} differ from those of the reference order"):
            continue
        for kk, vv in d.items():
            g, w = canon(vv, n), want[k][kk]
            if isinstance(w, tuple) or isinstance(g, tuple) or isinstance(w, list):
                if isinstance(w, list):
                    for x, y in zip(g, w):
                        ctx.close(x, y, 1e-6, f"{case} {k} {kk}")
                else:
                    ctx.check(False, f"{case} {k} {kk}: wrong labels {g} / {w}")
                continue
            tol = 1e-6 if pipe in EXACT else 2e-4
            if pipe == "niw" and k in ("niw", "manual", "niwg", "manualg"):
                tol = 2e-4
            if pipe == "fv":
                tol = 2e-5
            ctx.close(g, w, tol, f"{case} {k} {kk}")
    ctx.check(seen == set(want), f"{case}: results {sorted(set(want) - seen)} missing")
    ctx.out(pipe)


def bad_calls():
    """(name, call) pairs whose labels do not match: every one must raise."""
    n = 3
    u = U(3, range(3), range(3))
    good = u.s(W0[:3] / W0[:3].sum())
    R = u.f(SC[:12])
    variants = {"fine": lambda s: s.iloc[[2, 0, 1]] if len(s) == 3 else s, "renamed": lambda s: s.rename({NM[0]: "zz"}), "short": lambda s: s.iloc[:2], "long": lambda s: pd.concat([s, pd.Series([0.1], index=["zz"])]),
                "dup": lambda s: pd.concat([s.iloc[:2], s.iloc[[0]]])}
    for vn, v in variants.items():
        b = v(good)
        strict = good if vn == "fine" else b  # these reject any other order, which is allowed too
        wm = PortfolioWrapper.from_moments(u.s(MU), u.m(COV[:3, :3]))
        ws = PortfolioWrapper.from_scenarios(R)
        yield vn + " initial", lambda b=b, wm=wm: wm.variance_frontier(3, costs=TransactionCosts(initial_weights=b, market_impact_costs=MIC[:3]))
        yield vn + " impact", lambda b=b, wm=wm: wm.variance_frontier(3, costs=TransactionCosts(initial_weights=W0[:3], market_impact_costs=b))
        yield vn + " prop", lambda b=b, ws=ws: ws.cvar_frontier(3, costs=TransactionCosts(initial_weights=W0[:3], proportional_costs=b))
        yield vn + " ctor costs", lambda b=b: PortfolioWrapper.from_moments(u.s(MU), u.m(COV[:3, :3]), costs=TransactionCosts(initial_weights=b, market_impact_costs=MIC[:3]))
        yield vn + " budgets", lambda b=b, wm=wm: wm.relaxed_risk_parity_portfolio(risk_budgets=b)
        yield vn + " budgets frontier", lambda b=b, wm=wm: wm.relaxed_risk_parity_frontier(2, risk_budgets=b)
        yield vn + " mu", lambda b=strict: PortfolioWrapper.from_moments(b, u.m(COV[:3, :3]))
        yield vn + " bl pi", lambda b=b: BlackLittermanProcessor(prior_cov=u.m(COV[:3, :3]), pi=b, mean_views={NM[0]: 0.1})
        yield vn + " bl weights", lambda b=b: BlackLittermanProcessor(prior_cov=u.m(COV[:3, :3]), market_weights=b, risk_aversion=2.0, mean_views={NM[0]: 0.1})
        yield vn + " perf", lambda b=b: performance_report(b, R)
        yield vn + " pnl", lambda b=b: scenario_pnl(b, R)
        yield vn + " dd", lambda b=b: drawdown_quantile(b, R, 3, n_paths=10, seed=0)
        yield vn + " stress", lambda b=b: st.stress_test(b, R)
        yield vn + " stress inv", lambda b=b: st.stress_invariants(R, b, lambda y: y, n_simulations=20, seed=0)
        yield vn + " cvar", lambda b=b: portfolio_cvar(b, R)
        yield vn + " var", lambda b=b: portfolio_var(b, R)
        yield vn + " variance", lambda b=b: portfolio_variance(b, u.m(COV[:3, :3]))
        yield vn + " volatility", lambda b=b: portfolio_volatility(b, u.m(COV[:3, :3]))
        yield vn + " niw mean", lambda b=strict: NIWPosterior(prior_mu=b, prior_sigma=u.m(COV[:3, :3]), t0=5, nu0=6)
        yield vn + " niw sample", lambda b=strict: NIWPosterior(prior_mu=u.s(MU), prior_sigma=u.m(COV[:3, :3]), t0=5, nu0=6).update(sample_mu=b, sample_sigma=u.m(COV[:3, :3]), n_obs=10)
        yield vn + " posterior", lambda b=b: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=b, sigma=u.m(COV[:3, :3]), s_mu=u.m(COV[:3, :3]))).robust_lambda_frontier(2)
        yield vn + " log2simple", lambda b=b: log2simple(b, u.m(COV[:3, :3]))
        yield vn + " simple2log", lambda b=b: simple2log(b, u.m(COV[:3, :3]))
        if vn != "long":
            yield vn + " prices", lambda b=b: discretize_weights(weights=good, latest_prices=b * 10, total_value=100.0)
        yield vn + " ensemble weights", lambda b=b: en.average_exposures(pd.DataFrame(np.eye(3), columns=NM[:3], index=NM[:3]), b)
        yield vn + " mixed universes", lambda b=strict: en.stack_portfolios([good, b, good], L=2)
        pb = pd.Series(np.full(12, 1 / 12), index=TIX[:12])
        pv_ = {"fine": pb, "renamed": pb.rename({TIX[0]: pd.Timestamp("1999-01-01")}), "short": pb.iloc[:11], "long": pd.concat([pb, pd.Series([0.1], index=[pd.Timestamp("1999-01-01")])]),
               "dup": pd.concat([pb.iloc[:11], pb.iloc[[0]]])}[vn]
        yield vn + " probabilities", lambda q=pv_: PortfolioWrapper.from_scenarios(R, probabilities=q)
        yield vn + " moment probabilities", lambda q=pv_: mo.estimate_sample_moments(R, q)
        yield vn + " stress probabilities", lambda q=pv_: st.stress_test(good, R, stressed_probabilities=q)
        yield vn + " perf probabilities", lambda q=pv_: performance_report(good, R, probabilities=q)
        yield vn + " views probabilities", lambda q=pv_: FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=q, mean_views={NM[0]: 0.0})
        yield vn + " projection probabilities", lambda q=pv_: project_scenarios(R, p=q, n_simulations=5, seed=0)
        if vn != "long":
            yield vn + " spec probabilities", lambda q=pv_: en.make_portfolio_spec("a", returns=R, probabilities=q).frontier_factory()
    C = u.m(COV[:3, :3])
    yield "cov columns in other order", lambda: PortfolioWrapper.from_moments(u.s(MU), C[[NM[1], NM[0], NM[2]]])
    yield "cov order differs", lambda: AssetsDistribution(mu=u.s(MU), cov=C.loc[NM[2::-1], NM[2::-1]])
    yield "scenarios order differs", lambda: AssetsDistribution(mu=u.s(MU), cov=C, scenarios=R[NM[2::-1]])
    yield "names order differs", lambda: AssetsDistribution(mu=u.s(MU), cov=C, asset_names=NM[2::-1])
    yield "names length", lambda: AssetsDistribution(mu=MU[:3], cov=COV[:3, :3], asset_names=NM[:2])
    yield "unknown view", lambda: FlexibleViewsProcessor(prior_risk_drivers=R, mean_views={"zz": 0.0})
    yield "unknown bl view", lambda: BlackLittermanProcessor(prior_cov=C, pi=u.s(MU), mean_views={"zz": 0.0})
    yield "unknown repricer", lambda: PortfolioWrapper.from_invariants(R, reprice={"zz": lambda y: y}, n_simulations=5, seed=0)


def gen2(tier):
    for i, (nm, _) in enumerate(bad_calls()):
        yield [i, nm]


def run2(case, ctx):
    i, nm = case
    call = list(bad_calls())[i][1]
    ctx.state()
    if nm.startswith("fine "):
        call()
        ctx.out("accepted")
        return
    ctx.raises(call, Exception, f"mismatched labels: {nm}")
    ctx.out("rejected")


FAMILIES = [
    Family("permute", gen1, run1, "14 pipelines x all orders of the primary and secondary labelled inputs (all 36 pairs for 3 assets; 24-48 of the 576 pairs for 4 assets, all of them when thorough): same result per name", chunk=6),
    Family("label types", gen_types, run_types, "the same 14 pipelines with integer, digit-string, date, mixed and odd labels give what ordinary names give", chunk=6),
    Family("mismatch", gen2, run2, "renamed, missing, extra and duplicated labels in every labelled input are rejected"),
]
