"""C22: call histories: no mutation of inputs or earlier results, no hidden state, solver settings restored."""
import copy
import itertools
import warnings
import numpy as np
import pandas as pd
import cvxopt.solvers
from mc.core import Family
from mc import data
from checks import c21
from checks.c21 import U, NM, MU, COV, SC, W0, MIC, PC, TIX, PRICE
from pyvallocation import ensembles as en
from pyvallocation import discrete_allocation as da
from pyvallocation import moments as mo
from pyvallocation import probabilities as pb
from pyvallocation import stress as st
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor, at_least, at_most, between, entropy_pooling
from pyvallocation.utils import projection as pj
from pyvallocation.utils import performance as pf

LEVEL = "model_checking"
RULE = "case = one call history (sequence of operations on one object) or one pipeline in one argument order; after every call its outcome is compared with that of a fresh object, and all inputs, earlier results and global settings with snapshots"
ASSUMPTIONS = ["numerical code is deterministic in one process: outcomes are compared bit for bit"]


# ---------------------------------------------------------------- snapshots
def freeze(x, depth=0):
    """Comparable deep copy of anything the API takes or returns."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, x.copy().tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, pd.Series):
        return ("s", tuple(map(str, x.index)), str(x.name), freeze(x.to_numpy()))
    if isinstance(x, pd.DataFrame):
        return ("d", tuple(map(str, x.index)), tuple(map(str, x.columns)), freeze(x.to_numpy()))
    if isinstance(x, dict):
        return ("m",) + tuple((str(k), freeze(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, (float, np.floating)):
        return ("f", np.float64(x).tobytes())
    if isinstance(x, (int, str, bool, type(None), np.integer, np.bool_)):
        return repr(x)
    if isinstance(x, PortfolioFrontier):
        return ("frontier", freeze(x.weights), freeze(x.returns), freeze(x.risks), x.risk_measure, tuple(x.asset_names or ()), freeze(x.alternate_risks), freeze(x.metadata))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    if callable(x):
        return "callable"
    if hasattr(x, "__dict__") and depth < 4:
        return (type(x).__name__,) + tuple((k, freeze(v, depth + 1)) for k, v in sorted(vars(x).items()))
    return str(type(x))


def scribble(x):
    """Overwrite a result in place, as a caller may do."""
    try:
        if isinstance(x, np.ndarray):
            if x.dtype.kind == "f":
                x[...] = -7.25
        elif isinstance(x, pd.Series):
            x.iloc[:] = -7.25
        elif isinstance(x, pd.DataFrame):
            x.iloc[:, :] = -7.25
        elif isinstance(x, dict):
            for v in x.values():
                scribble(v)
            x["scribbled"] = 1
        elif isinstance(x, list):
            for v in x:
                scribble(v)
            x.append("scribbled")
        elif isinstance(x, tuple):
            for v in x:
                scribble(v)
        elif isinstance(x, PortfolioFrontier):
            for v in (x.weights, x.returns, x.risks):
                scribble(v)
        elif hasattr(x, "__dict__") and not callable(x):
            for v in vars(x).values():
                scribble(v)
    except (ValueError, TypeError):
        pass  # read-only or fixed-type results cannot be overwritten


def close_enough(a, b):
    return a == b


# ---------------------------------------------------------------- pipelines with recorded inputs
class Recorder(U):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = []

    def _rec(self, x):
        self.seen.append((x, freeze(x)))
        return x

    def s(self, *a, **k):
        return self._rec(super().s(*a, **k))

    def m(self, *a, **k):
        return self._rec(super().m(*a, **k))

    def f(self, *a, **k):
        return self._rec(super().f(*a, **k))

    def a(self, *a, **k):
        return self._rec(super().a(*a, **k))

    def tp(self, *a, **k):
        return self._rec(super().tp(*a, **k))

    def cons(self, *a, **k):
        return self._rec(super().cons(*a, **k))

    def costs(self, *a, **k):
        return self._rec(super().costs(*a, **k))


CONSTS = dict(MU=MU, COV=COV, SC=SC, W0=W0, MIC=MIC, PC=PC, PRICE=PRICE, LOTS=c21.LOTS, BUD=c21.BUD, PR=c21.PR, TP=c21.TP)
POISON = {"show_progress": False, "maxiters": 97, "verif_sentinel": 1, "glpk": {"msg_lev": "GLP_MSG_OFF"}}


def set_options():
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(copy.deepcopy(POISON))


def gen_pipe(tier):
    for n in (3, 4):
        P = data.perms(n)
        for pipe in c21.PIPES:
            for i, o in enumerate(P):
                if n == 4 and i % (6 if tier == "quick" else 1) != 1:
                    continue
                o2 = P[(5 * i + 3) % len(P)]
                yield [pipe, n, list(o), list(o2)]


def run_pipe(case, ctx):
    pipe, n, o, o2 = case
    set_options()
    np.random.seed(12)
    rng = freeze(np.random.get_state()[1])
    err = np.geterr()
    const = {k: freeze(v) for k, v in CONSTS.items()}
    runs = []
    for attempt in range(3):
        u = Recorder(n, o, o2)
        got, held = {}, []
        for k, d in c21.PIPES[pipe](u):
            ctx.step(); ctx.state()
            got[k] = freeze(d)
            ctx.check(dict(cvxopt.solvers.options) == POISON, lambda: f"{case} {k}: solver settings are {dict(cvxopt.solvers.options)} after the call")
            for x, snap in u.seen:
                ctx.check(freeze(x) == snap, lambda: f"{case} {k}: input of type {type(x).__name__} was modified")
            held.append(d)
        if attempt == 1:
            for d in held:
                scribble(d)
                for x, snap in u.seen:
                    ctx.check(freeze(x) == snap, lambda: f"{case}: a result shares memory with an input of type {type(x).__name__}")
        runs.append(got)
        for k, v in CONSTS.items():
            ctx.check(freeze(v) == const[k], f"{case}: shared array {k} was modified")
    ctx.check(runs[0] == runs[1] == runs[2], lambda: f"{case}: repeated run differs in {[k for k in runs[0] if runs[0][k] != runs[1].get(k) or runs[0][k] != runs[2].get(k)][:4]}")
    ctx.check(freeze(np.random.get_state()[1]) == rng, f"{case}: numpy's global random state changed")
    ctx.check(np.geterr() == err, f"{case}: numpy error settings changed")
    cvxopt.solvers.options.clear()
    ctx.out(pipe)


# ---------------------------------------------------------------- histories on one wrapper
def kinds():
    u = U(3, range(3), range(3))
    cons = dict(bounds=(0.05, 0.7))
    costs = TransactionCosts(initial_weights=W0[:3] / W0[:3].sum(), market_impact_costs=MIC[:3], proportional_costs=PC[:3])
    return {
        "plain": lambda: PortfolioWrapper.from_moments(u.s(MU), u.m(COV)),
        "set": lambda: PortfolioWrapper.from_moments(u.s(MU), u.m(COV), constraints=dict(cons), costs=copy.deepcopy(costs)),
        "log": lambda: PortfolioWrapper.from_moments(u.s(MU), u.m(COV), return_type="log", constraints=dict(cons)),
        "scen": lambda: PortfolioWrapper.from_scenarios(u.f(SC[:14]), probabilities=u.tp(14), costs=copy.deepcopy(costs)),
        "array": lambda: PortfolioWrapper.from_scenarios(SC[:12, :3].copy(), constraints=dict(cons)),
        "post": lambda: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=u.s(MU), sigma=u.m(COV), s_mu=u.m(COV) / 10), constraints=dict(cons)),
    }


BOX = dict(bounds=(0.1, 0.6))
SHORT = Constraints(long_only=False, bounds=(-0.5, 1.0))
QC = TransactionCosts(initial_weights=np.array([0.2, 0.2, 0.6]), market_impact_costs=np.array([0.1, 0.02, 0.05]), proportional_costs=np.array([0.003, 0.001, 0.002]))
IMP = dict(bounds=(0.5, 1.0))
OPS = {
    "vf": lambda w: w.variance_frontier(3),
    "vf box": lambda w: w.variance_frontier(3, constraints=BOX),
    "vf short": lambda w: w.variance_frontier(2, constraints=SHORT),
    "vf costs": lambda w: w.variance_frontier(3, costs=QC),
    "vf impossible": lambda w: w.variance_frontier(3, constraints=IMP),
    "mv": lambda w: w.min_variance_at_return(float(w.dist.mu @ np.full(3, 1 / 3))),
    "mv box costs": lambda w: w.min_variance_at_return(float(np.asarray(w.dist.mu) @ np.array([0.3, 0.3, 0.4])), constraints=BOX, costs=QC),
    "mv unattainable": lambda w: w.min_variance_at_return(9.0),
    "cf": lambda w: w.cvar_frontier(2, alpha=0.3, seed=3, n_simulations=30) if False else w.cvar_frontier(2, alpha=0.3),
    "cf box costs": lambda w: w.cvar_frontier(2, alpha=0.25, constraints=BOX, costs=QC),
    "mc": lambda w: w.min_cvar_at_return(float(np.asarray(w.dist.mu) @ np.full(3, 1 / 3)), alpha=0.3),
    "rob": lambda w: w.robust_lambda_frontier(lambdas=[0.2, 1.0]),
    "rob box": lambda w: w.robust_lambda_frontier(lambdas=[0.5], constraints=BOX, costs=QC),
    "gamma": lambda w: w.solve_robust_gamma_portfolio(0.4, 0.5, constraints=SHORT),
    "rrp": lambda w: w.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.1, target_multiplier=1.1),
    "rrp box": lambda w: w.relaxed_risk_parity_portfolio(constraints=BOX, risk_budgets=np.array([0.5, 0.3, 0.2])),
    "rrp front": lambda w: w.relaxed_risk_parity_frontier(2),
    "bad cons": lambda w: w.variance_frontier(2, constraints=dict(bounds={7: (0, 1)})),
    "bad costs": lambda w: w.variance_frontier(2, costs=TransactionCosts(initial_weights=np.ones(2))),
    "bad label": lambda w: w.variance_frontier(2).min_risk(risk_label="none"),
    "ensemble": lambda w: en.assemble_portfolio_ensemble([w.make_ensemble_spec("a", optimiser_kwargs=dict(num_portfolios=3), selector="max_return"), w.make_ensemble_spec("b", optimiser_kwargs=dict(num_portfolios=2, constraints=BOX), selector="min_risk")], ensemble=("average", "stack")).ensembles,
    "select": lambda w: (lambda f: [f.tangency(0.0), f.min_risk(), f.at_percentile(0.5), f.risk_percentiles(), f.to_frame(), f.to_samples(as_frame=False), f.closest_risk(0.1)])(w.variance_frontier(3)),
    "discrete": lambda w: w.variance_frontier(2).as_discrete_allocation(1, {nm: p for nm, p in zip(w.dist.asset_names or ["Asset_0", "Asset_1", "Asset_2"], (10.0, 25.0, 7.5))}, 1000.0),
    "report": lambda w: (repr(w), repr(w.dist)),
}
NOSCEN = ("cf", "cf box costs", "mc")
_FRESH = {}


def attempt(fn, w):
    try:
        return fn(w)
    except Exception as exc:  # noqa: BLE001  (a failing call is a legitimate event of a history)
        return exc


def fresh(kind, op):
    if (kind, op) not in _FRESH:
        _FRESH[(kind, op)] = freeze(attempt(OPS[op], kinds()[kind]()))
    return _FRESH[(kind, op)]


def gen_hist(tier):
    for kind in kinds():
        ops = [o for o in OPS if not (o in NOSCEN and kind not in ("scen", "array"))]
        for a in ops:
            for b in ops:
                yield [kind, [a, b]]
        for i, t in enumerate(itertools.product(ops, repeat=3)):
            if tier == "quick":
                if i % 61 != list(kinds()).index(kind):
                    continue
            elif i % 3 != list(kinds()).index(kind) % 3:
                continue
            yield [kind, list(t)]


def run_hist(case, ctx):
    kind, ops = case
    want = [fresh(kind, o) for o in ops]
    set_options()
    np.random.seed(5)
    rng = freeze(np.random.get_state()[1])
    args = freeze([BOX, SHORT, QC, IMP])
    w = kinds()[kind]()
    kept = []
    for i, o in enumerate(ops):
        r = attempt(OPS[o], w)
        ctx.step(); ctx.state()
        ctx.check(freeze(r) == want[i], lambda: f"{case}: step {i} ({o}) differs from the same call on a fresh object: {str(r)[:160]}")
        ctx.check(dict(cvxopt.solvers.options) == POISON, lambda: f"{case}: solver settings {dict(cvxopt.solvers.options)} after step {i} ({o})")
        ctx.check(freeze([BOX, SHORT, QC, IMP]) == args, lambda: f"{case}: step {i} ({o}) modified the constraints or costs passed to it")
        for j, (x, snap) in enumerate(kept):
            ctx.check(freeze(x) == snap, lambda: f"{case}: step {i} ({o}) modified the result of step {j} ({ops[j]})")
        ctx.out("raised" if isinstance(r, Exception) else "returned")
        kept.append((r, want[i]))
    # the caller overwrites what it was given: later calls must not notice
    for r, _ in kept:
        scribble(r)
    o = ops[0]
    ctx.step()
    ctx.check(freeze(attempt(OPS[o], w)) == want[0], lambda: f"{case}: {o} changed after its earlier results were overwritten by the caller")
    ctx.check(freeze(np.random.get_state()[1]) == rng, f"{case}: numpy's global random state changed")
    cvxopt.solvers.options.clear()


# ---------------------------------------------------------------- objects do not follow later edits of the caller's data, and share arguments safely
own = copy.deepcopy  # attributes are observed through copies: overwriting an attribute is editing the object itself


def builders():
    """name -> (mutable arguments, build(args) -> object, observe(object))"""
    u = U(3, range(3), range(3))
    see = lambda w: [w.variance_frontier(3), own(w.dist.mu), own(w.dist.cov)]
    B = {}
    for arr in (False, True):
        cv = (lambda x: x.to_numpy().copy()) if arr else (lambda x: x)
        t = " arrays" if arr else " pandas"
        B["moments" + t] = (lambda cv=cv: [cv(u.s(MU)), cv(u.m(COV)), dict(bounds=[[0.05, 0.6], [0.0, 0.5], [0.1, 0.7]]), W0[:3].copy(), MIC[:3].copy()],
                            lambda a: PortfolioWrapper.from_moments(a[0], a[1], constraints=a[2], costs=TransactionCosts(initial_weights=a[3], market_impact_costs=a[4])), see)
        B["scenarios" + t] = (lambda cv=cv: [cv(u.f(SC[:12])), cv(u.tp(12)), dict(bounds=[[0.05, 0.6], [0.0, 0.5], [0.1, 0.7]])],
                              lambda a: PortfolioWrapper.from_scenarios(a[0], probabilities=a[1], constraints=a[2]), lambda w: [w.variance_frontier(2), w.cvar_frontier(2, alpha=0.3)])
        B["distribution" + t] = (lambda cv=cv: [cv(u.s(MU)), cv(u.m(COV)), ["x1", "x2", "x3"] if cv(u.s(MU)).__class__ is np.ndarray else None],
                                 lambda a: AssetsDistribution(mu=a[0], cov=a[1], asset_names=a[2]), lambda d: [own(d.mu), own(d.cov), own(d.asset_names), PortfolioWrapper(d).variance_frontier(2)])
        B["scenario distribution" + t] = (lambda cv=cv: [cv(u.f(SC[:12])), cv(u.tp(12))], lambda a: AssetsDistribution(scenarios=a[0], probabilities=a[1]),
                                          lambda d: [own(d.mu), own(d.cov), own(d.scenarios), own(d.probabilities), PortfolioWrapper(d).cvar_frontier(2, alpha=0.3)])
        B["views" + t] = (lambda cv=cv: [cv(u.f(SC[:12])), cv(u.tp(12)), {NM[0] if cv(u.s(MU)).__class__ is not np.ndarray else 0: at_least(0.01)}],
                          lambda a: FlexibleViewsProcessor(prior_risk_drivers=a[0], prior_probabilities=a[1], mean_views=a[2]) if not isinstance(a[0], np.ndarray) else FlexibleViewsProcessor(prior_risk_drivers=a[0], prior_probabilities=a[1], vol_views=None, mean_views=np.asarray(SC[:12, :3].mean(0) * 1.01)),
                          lambda f: [f.get_posterior(), f.get_posterior_probabilities()])
        B["black-litterman" + t] = (lambda cv=cv: [cv(u.m(COV)), cv(u.s(MU)), np.asarray(MU[:3] * 1.1)], lambda a: BlackLittermanProcessor(prior_cov=a[0], pi=a[1], mean_views=a[2], view_confidences=np.array([0.5, 0.4, 0.3])),
                                    lambda b: [b.get_posterior()])
        B["niw" + t] = (lambda cv=cv: [cv(u.s(MU)), cv(u.m(COV)), cv(u.s(MU)) * 2, cv(u.m(COV)) * 1.5],
                        lambda a: (lambda o: (o.update(sample_mu=a[2], sample_sigma=a[3], n_obs=30), o)[1])(NIWPosterior(prior_mu=a[0], prior_sigma=a[1], t0=5, nu0=8)),
                        lambda o: [o.get_mu_ce(), o.get_S_mu(), o.get_sigma_ce(), o.cred_radius_mu(0.7), o.cred_radius_sigma_factor(0.7)])
        B["prices" + t] = (lambda cv=cv: [u.f(c21.PR[:15], index=None)], lambda a: PortfolioWrapper.from_prices(a[0]), see)
        B["invariants" + t] = (lambda cv=cv: [cv(u.f(SC[:10])), cv(u.tp(10))], lambda a: PortfolioWrapper.from_invariants(a[0], p=a[1], horizon=2, n_simulations=20, seed=4), lambda w: [own(w.dist.scenarios), w.variance_frontier(2)])
        B["posterior" + t] = (lambda cv=cv: [cv(u.s(MU)), cv(u.m(COV)), cv(u.m(COV)) / 9], lambda a: PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=a[0], sigma=a[1], s_mu=a[2])),
                              lambda w: [w.robust_lambda_frontier(lambdas=[0.5])])
    return B


def wreck(x):
    """In-place edits a caller may make to its own data after handing it over."""
    for v in x:
        if isinstance(v, np.ndarray):
            v *= 3.5
        elif isinstance(v, pd.Series):
            v.iloc[:] = v.to_numpy() * 3.5
        elif isinstance(v, pd.DataFrame):
            v.iloc[:, :] = v.to_numpy() * 3.5
        elif isinstance(v, list):
            v[0] = "edited"
        elif isinstance(v, dict):
            for k in list(v):
                v[k] = [[0.3, 0.4]] * 3 if isinstance(v[k], list) else ("==", 0.5)


def gen_own(tier):
    for nm in builders():
        for mode in ("edit", "share", "overwrite"):
            yield [nm, mode]


def run_own(case, ctx):
    nm, mode = case
    args, build, see = builders()[nm]
    want = freeze(see(build(args())))
    ctx.state(); ctx.step(2)
    if mode == "edit":
        a = args()
        o = build(a)
        wreck(a)
        ctx.check(freeze(see(o)) == want, f"{nm}: a built object changed when the caller later edited its own data")
    elif mode == "share":
        a = args()
        snap = freeze(a)
        objs = [build(a) for _ in range(3)]
        for i in (0, 2, 1, 0):
            ctx.step()
            ctx.check(freeze(see(objs[i])) == want, f"{nm}: objects built from the same data influence each other")
        ctx.check(freeze(a) == snap, f"{nm}: building from data modified it")
    else:
        o = build(args())
        r = see(o)
        scribble(r)
        ctx.check(freeze(see(o)) == want, f"{nm}: overwriting a returned result changed the object")
    ctx.out(mode)


# ---------------------------------------------------------------- histories of stand-alone functions
def functions():
    u = U(3, range(3), range(3))
    R, p = u.f(SC[:16]), u.tp(16)
    Rn, pn = R.to_numpy().copy(), pb.resolve_probabilities(None, 16)
    w = u.s(W0 / W0[:3].sum())
    X = np.array([[0.5, 0.1, 0.2, 0.3], [0.2, 0.6, 0.2, 0.1], [0.3, 0.3, 0.6, 0.6]])
    A, b = Rn[:, :1].T.copy(), np.array([[0.004]])
    views = {NM[0]: at_least(0.01), (NM[1], NM[2]): between(-0.02, 0.02)}
    vols, ranks = {NM[1]: at_most(0.05)}, [NM[2], NM[0]]
    F = {
        "stacking": lambda: en.exposure_stacking(X, L=2),
        "stacking options": lambda: en.exposure_stacking(X, L=3, solver_options={"maxiters": 60, "abstol": 1e-9}),
        "stacking fails": lambda: en.exposure_stacking(X, L=9),
        "stacking bad options": lambda: en.exposure_stacking(X, L=2, solver_options={"maxiters": -1}),
        "stacking starved": lambda: en.exposure_stacking(X, L=2, solver_options={"maxiters": 1}),
        "average": lambda: en.average_exposures(X, [1, 2, 3, 4]),
        "pooling": lambda: entropy_pooling(pn.reshape(-1, 1), np.vstack([np.ones(16), A]), np.vstack([[[1.0]], b])),
        "pooling ineq": lambda: entropy_pooling(pn.reshape(-1, 1), np.ones((1, 16)), np.ones((1, 1)), A, b * 0.5),
        "views": lambda: FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, mean_views=views, vol_views=vols, rank_mean=ranks).get_posterior(),
        "views sequential": lambda: FlexibleViewsProcessor(prior_risk_drivers=R, mean_views=views, vol_views=vols, rank_mean=ranks, sequential=True).get_posterior(),
        "views impossible": lambda: FlexibleViewsProcessor(prior_risk_drivers=R, mean_views={NM[0]: 5.0}).get_posterior(),
        "bl": lambda: BlackLittermanProcessor(prior_cov=u.m(COV), market_weights=w, risk_aversion=2.0, mean_views=views_bl, view_confidences=conf).get_posterior(),
        "allocate": lambda: da.discretize_weights(weights=w, latest_prices=u.s(PRICE), total_value=2000.0, method="milp"),
        "allocate greedy": lambda: da.discretize_weights(weights=w, latest_prices=u.s(PRICE), total_value=2000.0),
        "allocate fails": lambda: da.discretize_weights(weights=w, latest_prices=u.s(PRICE) * 0, total_value=2000.0),
        "estimate": lambda: mo.estimate_moments(R, p),
        "shrink": lambda: mo.estimate_moments(R, mean_estimator="jorion", cov_estimator="ledoit_wolf"),
        "glasso": lambda: mo.sparse_precision_glasso(R, alpha=1e-4),
        "project": lambda: pj.project_scenarios(R, p=p, n_simulations=20, seed=1),
        "paths": lambda: pj.simulate_paths(R, horizon=3, n_paths=10, seed=1, reprice=pj.reprice_exp),
        "stress": lambda: st.stress_test(w, R, probabilities=p, transform=lambda x: 2 * x),
        "pool stress": lambda: st.entropy_pooling_stress(w, R, FlexibleViewsProcessor(prior_risk_drivers=R, mean_views=views).get_posterior_probabilities()),
        "decay": lambda: st.exp_decay_stress(w, R, half_life=4),
        "drawdown": lambda: pf.drawdown_quantile(w, R, 3, n_paths=20, seed=0),
        "horizon": lambda: pf.horizon_report(w, R, horizons=(1, 2), n_simulations=20, seed=0),
        "performance": lambda: pf.performance_report(w, R, probabilities=p),
        "dist": lambda: PortfolioWrapper(DIST).variance_frontier(2),
    }
    views_bl, conf = {NM[0]: 0.1, (NM[1], NM[2]): 0.01}, {NM[0]: 0.5, (NM[1], NM[2]): 0.25}
    DIST = AssetsDistribution(mu=u.s(MU), cov=u.m(COV))
    return F, [R, p, Rn, pn, w, X, A, b, views, vols, ranks, views_bl, conf]


_FF = {}


def gen_fun(tier):
    names = list(functions()[0])
    for a in names:
        for b in names:
            yield [a, b]
    for i, t in enumerate(itertools.product(names, repeat=3)):
        if i % (97 if tier == "quick" else 9) == 4:
            yield list(t)


def run_fun(case, ctx):
    F, shared = functions()
    want = []
    for nm in case:
        if nm not in _FF:
            _FF[nm] = freeze(attempt(lambda _: functions()[0][nm](), None))
        want.append(_FF[nm])
    snap = freeze(shared)
    set_options()
    kept = []
    for i, nm in enumerate(case):
        r = attempt(lambda _: F[nm](), None)
        ctx.step(); ctx.state()
        ctx.check(freeze(r) == want[i], lambda: f"{case}: call {i} ({nm}) differs from the same call made first: {str(r)[:160]}")
        ctx.check(dict(cvxopt.solvers.options) == POISON, lambda: f"{case}: solver settings {dict(cvxopt.solvers.options)} after {nm}")
        ctx.check(freeze(shared) == snap, lambda: f"{case}: {nm} modified its arguments")
        for x, s in kept:
            ctx.check(freeze(x) == s, lambda: f"{case}: {nm} modified an earlier result")
        kept.append((r, want[i]))
        ctx.out("raised" if isinstance(r, Exception) else "returned")
    for x, _ in kept:
        scribble(x)
    ctx.check(freeze(shared) == snap, f"{case}: a result shares memory with an argument")
    cvxopt.solvers.options.clear()


FAMILIES = [
    Family("pipelines", gen_pipe, run_pipe, "the 14 pipelines of C21 in every order of 3 (4) assets, run three times with recorded inputs, overwritten results and unusual solver settings", chunk=2),
    Family("histories", gen_hist, run_hist, "all sequences of two, and a regular subset of all sequences of three, of 24 operations (overrides, failing calls, ensembles, selectors) on six kinds of wrapper"),
    Family("ownership", gen_own, run_own, "20 object kinds x later edits of the caller's data, shared data, overwritten results"),
    Family("functions", gen_fun, run_fun, "all sequences of two, and a regular subset of three, of 26 stand-alone calls sharing arguments"),
]
