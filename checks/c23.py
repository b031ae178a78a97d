"""C23: fault injection at every numerical solver call: single faults, pairs and lasting failures."""
import numpy as np
import cvxopt
import cvxopt.solvers as cs
import scipy.optimize as so
from cvxopt import matrix


class Faults:
    """Controlled environment: counts outermost solver calls and answers the planned ones with a failure."""

    def __init__(self):
        self.reset({})

    def reset(self, plan, lasting=None):
        self.plan, self.lasting, self.calls, self.depth, self.fired = plan, lasting, 0, 0, []

    def pick(self):
        k = self.calls
        self.calls += 1
        if k in self.plan:
            return k, self.plan[k]
        if self.lasting is not None and k >= self.lasting[0]:
            return k, self.lasting[1]
        return k, None


FAULTS = Faults()
EXCS = {"arithmetic": ArithmeticError("injected: singular KKT matrix"), "value": ValueError("Rank(A) < p or Rank([P; A; G]) < n"), "zerodiv": ZeroDivisionError("float division by zero")}
ANSWERS = ["arithmetic", "value", "zerodiv", "unknown-turned", "unknown-half", "unknown-none", "infeasible", "unbounded"]


def _dispatch(name, real, family):
    def call(*a, **k):
        if FAULTS.depth:
            return real(*a, **k)
        idx, ans = FAULTS.pick()
        FAULTS.depth += 1
        try:
            if ans is None:
                return real(*a, **k)
            FAULTS.fired.append((idx, name, ans))
            if ans in EXCS:
                raise type(EXCS[ans])(*EXCS[ans].args)
            try:
                true = real(*a, **k)
            except Exception:  # noqa: BLE001
                true = None
            return family(ans, true, a, k)
        finally:
            FAULTS.depth -= 1

    call.__name__ = name
    call._real = real
    return call


def _cvx(ans, true, a, k):
    keys = ("x", "y", "s", "z", "primal objective", "dual objective", "gap", "relative gap", "primal infeasibility", "dual infeasibility", "primal slack", "dual slack", "iterations",
            "residual as primal infeasibility certificate", "residual as dual infeasibility certificate")
    sol = {key: None for key in keys}
    x = None if true is None or true.get("x") is None else np.array(true["x"]).ravel()
    if ans in ("unknown-turned", "unknown-half", "unbounded") and x is not None:
        v = {"unknown-turned": np.roll(x, 1), "unknown-half": 0.5 * x, "unbounded": 1e3 * np.roll(x, 1)}[ans]
        sol.update({key: true.get(key) for key in keys})
        sol["x"] = matrix(v)
        for key in ("primal objective", "dual objective"):
            sol[key] = None if true.get(key) is None else 0.5 * true[key] - 0.01
    sol["status"] = {"infeasible": "primal infeasible", "unbounded": "dual infeasible"}.get(ans, "unknown")
    return sol


def _milp(ans, true, a, k):
    x = None if true is None or true.x is None else np.array(true.x)
    status = {"infeasible": 2, "unbounded": 3, "unknown-none": 4}.get(ans, 1)
    if status != 1:
        x = None
    elif x is not None:
        x = np.roll(x, 1) if ans == "unknown-turned" else np.floor(0.5 * x)
    return so.OptimizeResult(success=False, status=status, message=f"injected {ans}", x=x, fun=None if x is None else 0.0, mip_gap=None, mip_node_count=0, mip_dual_bound=None)


def _minimize(ans, true, a, k):
    x0 = np.atleast_1d(np.asarray(k.get("x0", a[1] if len(a) > 1 else [0.0]), float))
    x = x0 if true is None else np.asarray(true.x, float)
    v = {"unknown-turned": np.roll(x, 1) + 0.25, "unknown-half": 0.5 * x + 0.01, "unknown-none": np.full_like(x0, np.nan), "infeasible": x0, "unbounded": 1e6 * (np.abs(x) + 1.0)}[ans]
    return so.OptimizeResult(success=False, status=1 if ans != "infeasible" else 2, message=f"injected {ans}", x=v, fun=float("nan"), nfev=3, nit=2, jac=np.zeros_like(v))


# installed before the library is imported, so that names imported from these modules are covered too
for _n in ("qp", "lp", "conelp", "coneqp", "socp", "sdp", "cp", "cpl", "gp"):
    if not hasattr(getattr(cs, _n), "_real"):
        setattr(cs, _n, _dispatch(_n, getattr(cs, _n), _cvx))
for _n, _f in (("milp", _milp), ("linprog", _milp), ("minimize", _minimize)):
    if not hasattr(getattr(so, _n), "_real"):
        setattr(so, _n, _dispatch(_n, getattr(so, _n), _f))

import pandas as pd  # noqa: E402
import sys  # noqa: E402
from mc.core import Family  # noqa: E402
from mc import data  # noqa: E402
from checks import c21  # noqa: E402
from checks.c21 import U, NM, MU, COV, SC, W0, MIC, PC, PRICE  # noqa: E402
from pyvallocation import ensembles as en  # noqa: E402
from pyvallocation import discrete_allocation as da  # noqa: E402
from pyvallocation import optimization as opt  # noqa: E402
from pyvallocation import stress as st  # noqa: E402
from pyvallocation.bayesian import RobustBayesPosterior  # noqa: E402
from pyvallocation.portfolioapi import PortfolioWrapper, TransactionCosts  # noqa: E402
from pyvallocation.utils.constraints import build_G_h_A_b  # noqa: E402
from pyvallocation.views import FlexibleViewsProcessor, at_least, at_most, entropy_pooling  # noqa: E402

for _m in [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "pyvallocation" and m is not None]:
    for _k, _v in list(vars(_m).items()):
        for _mod in (cs, so):
            _w = getattr(_mod, _k, None)
            if _w is not None and getattr(_w, "_real", None) is _v:
                setattr(_m, _k, _w)

LEVEL = "model_checking"
RULE = "case = entry point x index of the first failing solver call x its answer; per case every second failing call and every lasting failure; an execution counts as a state, each compared with the fault-free outcome"
ASSUMPTIONS = ["solver failures show as exceptions or non-success statuses with arbitrary iterates; a solver reporting success is trusted", "fault-free instances have unique optima, so a recovered result must equal the fault-free one"]

U3 = U(3, range(3), range(3))
BOX = dict(bounds=(0.05, 0.7))
T0 = float(np.mean(MU[:3]))


def costs(quad=True, prop=False):
    return TransactionCosts(initial_weights=W0[:3] / W0[:3].sum(), market_impact_costs=MIC[:3] if quad else None, proportional_costs=PC[:3] if prop else None)


def wm(**k):
    return PortfolioWrapper.from_moments(U3.s(MU), U3.m(COV), **k)


def ws(**k):
    return PortfolioWrapper.from_scenarios(U3.f(SC[:14]), probabilities=U3.tp(14), **k)


def wp(**k):
    return PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=U3.s(MU), sigma=U3.m(COV), s_mu=U3.m(COV) / 10), **k)


def front(f):
    return {"weights": f.weights, "returns": f.returns, "risks": f.risks}


def port(r):
    return {"weights": r[0], "return": r[1], "risk": r[2]}


def low(cls, *a, **k):
    G, h, A, b = build_G_h_A_b(3, long_only=True, total_weight=1.0, bounds=(0.0, 0.8))
    return cls(*a, G, h, A, b, **k)


def views(**k):
    f = FlexibleViewsProcessor(prior_risk_drivers=U3.f(SC[:16]), prior_probabilities=U3.tp(16), **k)
    mu, cov = f.get_posterior()
    return {"q": f.get_posterior_probabilities(), "mu": mu, "cov": cov}


X = np.array([[0.5, 0.1, 0.2, 0.3], [0.2, 0.6, 0.2, 0.1], [0.3, 0.3, 0.6, 0.6]])
PN = np.full((16, 1), 1 / 16)
A1 = SC[:16, :1].T.copy()
E = {
    # name: (shared object, operation, tolerance)
    "vf": (lambda: wm(), lambda w: front(w.variance_frontier(3)), 2e-4),
    "vf box costs": (lambda: wm(constraints=BOX, costs=costs()), lambda w: front(w.variance_frontier(3)), 2e-4),
    "mv": (lambda: wm(), lambda w: port(w.min_variance_at_return(T0)), 2e-4),
    "mv costs": (lambda: wm(constraints=BOX, costs=costs()), lambda w: port(w.min_variance_at_return(T0)), 2e-4),
    "cf": (lambda: ws(), lambda w: front(w.cvar_frontier(3, alpha=0.3)), 1e-5),
    "cf costs": (lambda: ws(constraints=BOX, costs=costs(False, True)), lambda w: front(w.cvar_frontier(3, alpha=0.3)), 1e-5),
    "mc": (lambda: ws(), lambda w: port(w.min_cvar_at_return(float(np.asarray(w.dist.mu).mean()), alpha=0.3)), 1e-5),
    "robust": (lambda: wp(), lambda w: front(w.robust_lambda_frontier(lambdas=[0.3, 1.0])), 1e-4),
    "robust costs": (lambda: wp(constraints=BOX, costs=costs(False, True)), lambda w: front(w.robust_lambda_frontier(lambdas=[0.3, 1.0])), 1e-4),
    "gamma": (lambda: wp(), lambda w: port(w.solve_robust_gamma_portfolio(0.05, 0.5)), 1e-4),
    "rrp plain": (lambda: wm(), lambda w: rrp(w, None, 0.0), 1e-4),
    "rrp": (lambda: wm(), lambda w: rrp(w, 1.2), 1e-4),
    "rrp box": (lambda: wm(constraints=BOX), lambda w: rrp(w, 1.1), 1e-4),
    "rrp frontier": (lambda: wm(), lambda w: rrpf(w), 1e-4),
    "sharpe": (lambda: low(opt.MeanVariance, MU[:3], COV[:3, :3]), lambda o: {"weights": o.max_sharpe(0.0).weights}, 2e-4),
    "mv low": (lambda: low(opt.MeanVariance, MU[:3], COV[:3, :3]), lambda o: {"frontier": o.efficient_frontier(3), "one": o.efficient_portfolio(T0)}, 2e-4),
    "cvar low": (lambda: low(opt.MeanCVaR, SC[:14, :3], np.full(14, 1 / 14), 0.3), lambda o: {"frontier": o.efficient_frontier(2), "one": o.efficient_portfolio(None)}, 1e-5),
    "robust low": (lambda: low(opt.RobustOptimizer, MU[:3], COV[:3, :3]), lambda o: {"a": o.solve_lambda_variant(0.4).weights, "b": np.asarray(o.efficient_frontier([0.1, 1.0])[2])}, 1e-4),
    "stacking": (lambda: X, lambda x: {"w": en.exposure_stacking(x, L=2)}, 1e-4),
    "stack frontiers": (lambda: [wm().variance_frontier(3), wm(constraints=BOX).variance_frontier(2)], lambda f: {"w": en.exposure_stack_frontiers(f, L=2)}, 1e-4),
    "ensemble": (lambda: wm(), lambda w: {k: v for k, v in en.assemble_portfolio_ensemble([w.make_ensemble_spec("a", optimiser_kwargs=dict(num_portfolios=3), selector="tangency"), w.make_ensemble_spec("b", optimiser_kwargs=dict(num_portfolios=2, constraints=BOX), selector="min_risk")], ensemble=("average", "stack"), stack_folds=2).ensembles.items()}, 5e-4),
    "pooling": (lambda: (PN.copy(), A1), lambda a: {"q": entropy_pooling(a[0], np.vstack([np.ones(16), a[1]]), np.array([[1.0], [0.006]]))}, 1e-5),
    "pooling ineq": (lambda: (PN.copy(), A1), lambda a: {"q": entropy_pooling(a[0], np.ones((1, 16)), np.ones((1, 1)), -a[1], np.array([[-0.02]]))}, 1e-5),
    "pooling lbfgs": (lambda: (PN.copy(), A1), lambda a: {"q": entropy_pooling(a[0], np.vstack([np.ones(16), a[1]]), np.array([[1.0], [0.006]]), method="L-BFGS-B")}, 1e-5),
    "views": (lambda: None, lambda _: views(mean_views={NM[0]: at_least(0.02)}, vol_views={NM[1]: at_most(0.05)}, rank_mean=[NM[2], NM[0]]), 1e-5),
    "views sequential": (lambda: None, lambda _: views(mean_views={NM[0]: 0.004}, vol_views={NM[1]: at_most(0.05)}, sequential=True), 1e-5),
    "views cvar": (lambda: None, lambda _: views(cvar_views={NM[0]: (-0.03, 0.25)}), 1e-5),
    "discrete milp": (lambda: wm().variance_frontier(2), lambda f: disc(f.as_discrete_allocation(1, U3.s(PRICE), 3000.0, method="milp")), 1e-9),
    "discretize milp": (lambda: U3.s(W0 / W0[:3].sum()), lambda w: disc(da.discretize_weights(weights=w, latest_prices=U3.s(PRICE), total_value=3000.0, method="milp")), 1e-9),
    "greedy fallback": (lambda: U3.s(W0 / W0[:3].sum()), lambda w: disc(da.discretize_weights(weights=w, latest_prices=U3.s(PRICE), total_value=150.0, max_iterations=1)), 1e-9),
    "greedy demanded": (lambda: U3.s(W0 / W0[:3].sum()), lambda w: disc(da.discretize_weights(weights=w, latest_prices=U3.s(PRICE), total_value=150.0, max_iterations=1, fallback_mode="milp")), 1e-9),
    "greedy shorts": (lambda: U3.s([0.8, -0.3, 0.5, 0.1]), lambda w: disc(da.discretize_weights(weights=w, latest_prices=U3.s(PRICE), total_value=900.0)), 1e-9),
}


def disc(r):
    g = (lambda k: r[k]) if isinstance(r, dict) else (lambda k: getattr(r, k))
    return {"shares": pd.Series(dict(g("shares")), dtype=float).sort_index(), "cash": g("leftover_cash")}


def rrp(w, mult, lam=0.1):
    out = w.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, target_multiplier=mult)
    return {"weights": out[0], "_points": [(plain(out[0]), lam, out[-1]["requested_target"], out[-1]["target_return"], out[-1]["solver_warning"])]}


def rrpf(w):
    f = w.relaxed_risk_parity_frontier(3, max_multiplier=1.3)
    return {"weights": f.weights, "_points": [(f.weights[:, j], m["lambda_reg"], m["requested_target"], m["effective_target"], m["solver_warning"]) for j, m in enumerate(f.metadata)]}


def plain(x):
    return np.asarray(x, float)


NCALLS = 10
_REF = {}


def reference(name):
    if name not in _REF:
        FAULTS.reset({})
        make, op, tol = E[name]
        out = op(make())
        _REF[name] = (out, FAULTS.calls)
    return _REF[name]


def same(got, want, tol):
    for k, v in want.items():
        if k.startswith("_"):
            continue
        a, b = plain(got[k]), plain(v)
        if a.shape != b.shape or not np.all(np.isfinite(a)) or not np.allclose(a, b, rtol=tol, atol=tol):
            return f"{k}: {np.array2string(a.ravel()[:6], precision=5)} instead of {np.array2string(b.ravel()[:6], precision=5)}"
    return None


def gen(tier):
    for name in E:
        for k in range(NCALLS):
            for a in ANSWERS:
                yield [name, k, a, tier]


def accept_rrp(name, got):
    """A lowered target is a documented outcome: the weights must be the exact solution for the target reported with them."""
    FAULTS.reset({})
    w = E[name][0]()
    for x, lam, asked, used, warning in got["_points"]:
        if asked is not None and used is None and warning is None:
            return f"a dropped target {asked} without a warning"
        if used is None:
            G, h, A, b = build_G_h_A_b(3, **{**dict(long_only=True, total_weight=1.0), **(BOX if "box" in name else {})})
            ref = plain(opt.RelaxedRiskParity(MU[:3], COV[:3, :3], G, h, A, b).solve(lambda_reg=lam, return_target=None).weights)
        else:
            ref = plain(w.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, target_multiplier=None, return_target=used)[0])
        if not np.allclose(x, ref, atol=5e-4):
            return f"weights {x} which are not the solution {ref} for the reported target {used}"
    return None


def accept(name, got, ref, tol, fired):
    bad = same(got, ref, tol)
    if bad is None:
        return None
    if name == "views cvar" and not any(a in EXCS for _, _, a in fired):
        # a tail whose pooling problem keeps failing is skipped as unattainable: the result must still satisfy the view
        q, x = plain(got["q"]).ravel(), SC[:16, 0]
        o = np.argsort(x)
        tails = [(q[o[:s + 1]].sum(), (q * x)[o[:s + 1]].sum()) for s in range(15)]
        if abs(q.sum() - 1) < 1e-6 and any(abs(a - 0.25) < 1e-5 and abs(b + 0.03 * 0.25) < 1e-5 for a, b in tails):
            return None
    if name == "greedy fallback":
        FAULTS.reset({})
        plainly = disc(da.discretize_weights(weights=E[name][0](), latest_prices=U3.s(PRICE), total_value=150.0, max_iterations=1, fallback_mode="none"))
        return same(got, plainly, tol)
    if "_points" in got:
        return accept_rrp(name, got)
    return bad


def one(ctx, name, ref, obj, op, tol, plan, lasting=None):
    before = dict(cs.options)
    FAULTS.reset(plan, lasting)
    tag = f"{name} with failing calls {plan}{' and all from ' + str(lasting) if lasting else ''}"
    ctx.state()
    try:
        got = op(obj)
    except Exception as exc:  # noqa: BLE001
        got, err = None, exc
    fired, calls = list(FAULTS.fired), FAULTS.calls
    ctx.step(calls)
    FAULTS.reset({})
    ctx.check(dict(cs.options) == before, f"{tag}: solver settings changed to {dict(cs.options)}")
    if got is None:
        ctx.out("raised")
        ctx.check(bool(fired), lambda: f"{tag}: raised {err!r} although no solver call failed")
    else:
        ctx.out("recovered" if fired else "not reached")
        bad = accept(name, got, ref, tol, fired)
        ctx.check(bad is None, lambda: f"{tag}: returned {bad} (failed calls {fired})")
    return fired, calls


def run(case, ctx):
    name, k, ans, tier = case
    make, op, tol = E[name]
    ref, n0 = reference(name)
    obj = make()
    fired, calls = one(ctx, name, ref, obj, op, tol, {k: ans})
    if not fired:
        return
    # every lasting failure starting here
    one(ctx, name, ref, obj, op, tol, {}, (k, ans))
    i = ANSWERS.index(ans)
    seconds = ANSWERS if tier == "thorough" else [ANSWERS[(i + 1) % 8], ans, ANSWERS[(i + 5) % 8]]
    for k2 in range(k + 1, NCALLS + 2):
        hit = False
        for a2 in seconds:
            f2, _ = one(ctx, name, ref, obj, op, tol, {k: ans, k2: a2})
            hit = hit or len(f2) == 2
        if not hit:
            break
    # the same object answers correctly afterwards
    FAULTS.reset({})
    bad = same(op(obj), ref, 1e-12)
    ctx.check(bad is None, lambda: f"{name}: after failing call {k} ({ans}) the same object returns {bad}")


FAMILIES = [Family("faults", gen, run, f"{len(E)} entry points x every solver call x 8 failure answers: alone, lasting, and with every later second failure", chunk=4)]
