"""C02: whatever an optimiser returns is feasible; infeasible problems raise."""
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation import optimization as opt
from pyvallocation.utils.constraints import Constraints

LEVEL = "model_checking"
RULE = "case = (universe size, constraint set, cost configuration, data set, entry point, target level); all combinations"
ASSUMPTIONS = ["solver tolerance 2e-6 relative to weights of order one", "n <= 3 assets"]
TOL = 3e-6

DATA = {"a": ("pos", "up", "A"), "b": ("neg", "mix", "C"), "c": ("hi" , "neg", "B")}
LEVELS = [None, -1.0, 0.0, 0.4, 0.9, 1.0, 1.25]   # position of the target between min and max attainable return


def all_sets(n):
    d = dict(data.CONS[n])
    for k, v in data.INFEASIBLE[n].items():
        d["INF_" + k] = v
    return d


def lim(mu, n, rl):
    s, hi = ref.lp_max(mu, n, rl)
    s2, lo = ref.lp_max(-mu, n, rl)
    return s, (None if hi is None else hi), (None if lo is None else -lo)


class Ask:
    """One invocation: returns list of (weights, extra_rules, labels_ok)."""


def t_of(level, lo, hi, mu=None):
    if level is None:
        return None
    if lo is None or hi is None:
        base, span = 0.005, 0.01
        return base + span * level if level <= 1 else base + span
    span = max(hi - lo, 0.002)
    return lo + span * level if level <= 1.0 and level != 1.0 else (hi if level == 1.0 else hi + 0.25 * span)


MODELS = ["mv", "cvar", "rob_l", "rob_g", "rrp"]
FACADE = ["mv", "mv_front", "cvar", "cvar_front", "rob_front", "rob_g", "rrp", "rrp_diag", "rrp_front"]


def gen_low(tier):
    for n in (2, 3):
        for cname in all_sets(n):
            for d in DATA:
                for model in MODELS:
                    for cost in (["none", "quad"] if model == "mv" else ["none", "prop"] if model != "rrp" else ["none"]):
                        for lv in (range(len(LEVELS)) if model in ("mv", "cvar", "rrp") else range(4)):
                            yield [n, cname, d, model, cost, lv]


def rrp_rules(n, spec, S):
    """Risk parity is defined on long-only, fully invested portfolios with non-negative marginal risks."""
    s = dict(spec)
    rl = ref.rules(n, s)
    rl += ref.rules(n, dict(long_only=True, total_weight=None))
    if not any(np.allclose(c, 1) and l is not None and l == u for c, l, u in rl):
        rl += ref.rules(n, dict(long_only=False, total_weight=1.0))
    return rl + [(S[i], 0.0, None) for i in range(n)]


def judge(ctx, W, rl, what):
    W = np.asarray(W, float)
    if W.ndim == 1:
        W = W[:, None]
    ctx.check(W.size > 0 and bool(np.all(np.isfinite(W))), f"{what}: non-finite weights {W.tolist()}")
    for j in range(W.shape[1]):
        v = ref.violation(W[:, j], rl)
        ctx.check(v <= TOL, lambda: f"{what}: portfolio {j} {W[:, j].tolist()} breaks a constraint by {v:.3g}")


def expected(n, rl, target_row=None):
    return ref.feasible(n, rl + ([target_row] if target_row else []))


def run_low(case, ctx):
    n, cname, d, model, cost, lv = case
    spec = all_sets(n)[cname]
    S, mu, R, p = E.problem(n, *DATA[d])
    G, h, A, b = E.mats(n, spec)
    w0, mic, pc = E.costs_of(n, cost)
    rl = ref.rules(n, spec)
    if model == "rrp":
        rl = rrp_rules(n, spec, S)
    m = p @ R if model == "cvar" else mu
    st, hi, lo = lim(m, n, rl)
    level = LEVELS[lv]
    what = f"{model} n={n} {cname} data={d} cost={cost} level={level}"
    ctx.state(); ctx.step()
    feas = st != "infeasible"
    target = t_of(level, lo, hi)
    try:
        if model == "mv":
            o = opt.MeanVariance(mu, S, G, h, A, b, initial_weights=w0, market_impact_costs=mic)
            W = o.efficient_portfolio(target)
        elif model == "cvar":
            o = opt.MeanCVaR(R, p, 0.25, G, h, A, b, initial_weights=w0, proportional_costs=pc)
            W = o.efficient_portfolio(target)
        elif model == "rob_l":
            o = opt.RobustOptimizer(mu, S, G, h, A, b, initial_weights=w0, proportional_costs=pc)
            W = o.solve_lambda_variant([0.0, 0.125, 1.0, 4.0][lv]).weights
            target = None
        elif model == "rob_g":
            o = opt.RobustOptimizer(mu, S, G, h, A, b, initial_weights=w0, proportional_costs=pc)
            # cap between the smallest attainable radius and the largest
            base, _ = ref.qp_min(S, np.zeros(n), n, rl) if feas else (None, None)
            cap = [0.5, 1.21, 4.0, 100.0][lv] * (base if base else 1e-4)
            res = o.solve_gamma_variant(0.5, cap)
            W = res.weights
            rad = float(W @ S @ W)
            ctx.check(rad <= cap * (1 + 1e-4) + 1e-12, f"{what}: squared radius {rad} exceeds cap {cap}")
            target = None
        else:
            o = opt.RelaxedRiskParity(mu, S, G, h, A, b)
            res = o.solve(lambda_reg=0.25, return_target=target)
            W = res.weights
            if target is not None:
                ctx.check(res.target_return is not None and mu @ W >= res.target_return - TOL * 0.02, f"{what}: reported target {res.target_return} not met by {mu @ W}")
                ctx.check(res.target_return <= target + 1e-12, f"{what}: effective target raised from {target} to {res.target_return}")
            target = None
    except Exception as exc:
        ctx.validated += 1
        ctx.out("raised")
        ok_fail = not feas
        if feas and level is not None and target is not None and hi is not None and target > hi - 1e-12:
            ok_fail = True
        if model == "rob_g" and feas and lv == 0:
            ok_fail = True
        if hi is None or lo is None:     # unbounded return: optimum may not exist
            ok_fail = True
        if not ok_fail:
            ctx.refused(exc, f"{what}: feasible problem")
        return
    ctx.out("returned")
    if not feas:
        ctx.fail(f"{what}: infeasible constraints but returned {np.asarray(W).tolist()}")
        return
    if model == "rob_g" and lv == 0 and base:
        ctx.fail(f"{what}: cap below the smallest attainable radius but returned {W.tolist()}")
    if target is not None:
        if hi is not None and target > hi + 1e-4:
            ctx.fail(f"{what}: target {target} above maximum {hi} but returned {W.tolist()}")
        rl = rl + [(m, target - 1e-8, None)]
    judge(ctx, W, rl, what)


# ---------------------------------------------------------------- facade
def gen_facade(tier):
    for n in (2, 3):
        for cname in all_sets(n):
            for d in DATA:
                for entry in FACADE:
                    for route in ("ctor", "call", "dict"):
                        for lab in (True, False):
                            for cost in ("none", "both"):
                                if tier == "quick" and not ((lab and route != "dict") or (route == "dict" and not lab)):
                                    continue
                                yield [n, cname, d, entry, route, lab, cost]


def run_facade(case, ctx):
    n, cname, d, entry, route, lab, cost = case
    spec = all_sets(n)[cname]
    S, mu, R, p = E.problem(n, *DATA[d])
    p = np.array([0.1, 0.4, 0.3, 0.2, 0.25, 0.15])[: len(R)]
    p = p / p.sum()
    kw = {}
    cons = Constraints(**spec) if route != "dict" else dict(spec)
    ckw, mkw = {}, {}
    (mkw if route == "call" else ckw)["constraints"] = cons
    if cost != "none":
        (mkw if route == "call" else ckw)["costs"] = E.tcosts(n, cost)
    scen_based = entry.startswith("cvar")
    w = E.wrapper_scen(n, R, p, lab, **ckw) if scen_based else E.wrapper_moments(n, S, mu, lab, **ckw)
    m = p @ R if scen_based else mu
    rl = rrp_rules(n, spec, S) if entry.startswith("rrp") else ref.rules(n, spec)
    st, hi, lo = lim(m, n, rl)
    feas = st != "infeasible"
    what = f"{entry} n={n} {cname} data={d} route={route} labelled={lab} cost={cost}"
    tlist = [0.3, 1.25] if entry in ("mv", "cvar") else [None]
    for lv in tlist:
        target = t_of(lv, lo, hi)
        ctx.state(); ctx.step()
        extra, tgt_rows = [], {}
        ser = None
        try:
            if entry == "mv":
                ser, ret, risk = w.min_variance_at_return(target, **mkw)
            elif entry == "cvar":
                ser, ret, risk = w.min_cvar_at_return(target, alpha=0.25, **mkw)
            elif entry == "mv_front":
                f = w.variance_frontier(4, **mkw)
            elif entry == "cvar_front":
                f = w.cvar_frontier(4, alpha=0.25, **mkw)
            elif entry == "rob_front":
                f = w.robust_lambda_frontier(lambdas=[0.25, 0.5, 2.0], **mkw)
            elif entry == "rob_g":
                ser, ret, risk = w.solve_robust_gamma_portfolio(0.5, 1.0, **mkw)
            elif entry == "rrp":
                ser, ret, risk = w.relaxed_risk_parity_portfolio(lambda_reg=0.2, target_multiplier=1.1, **mkw)
            elif entry == "rrp_diag":
                ser, ret, risk, _ = w.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.2, return_target=float(np.mean(mu)), **mkw)
            else:
                f = w.relaxed_risk_parity_frontier(3, 1.4, **mkw)
        except Exception as exc:
            ctx.validated += 1
            ctx.out("raised")
            if feas and hi is not None and lo is not None and not (target is not None and target > hi - 1e-12):
                ctx.refused(exc, f"{what} level={lv}: feasible problem")
            continue
        ctx.out("returned")
        if not feas:
            ctx.fail(f"{what}: infeasible constraints but weights returned")
            continue
        if ser is not None:
            if target is not None:
                if hi is not None and target > hi + 1e-4:
                    ctx.fail(f"{what}: target {target} above maximum {hi} but returned {list(ser)}")
                extra = [(m, target - 1e-8, None)]
            judge(ctx, np.asarray(ser, float), rl + extra, f"{what} level={lv}")
            ctx.check(isinstance(ser, pd.Series) and (not lab or list(ser.index) == E.NAMES[:n]), f"{what}: labels {list(getattr(ser, 'index', []))}")
        else:
            judge(ctx, f.weights, rl, what)
            ctx.check(f.weights.shape[0] == n and (f.asset_names == E.NAMES[:n] if lab else f.asset_names is None), f"{what}: labels {f.asset_names}")


# ---------------------------------------------------------------- max sharpe + frontiers of the low-level classes
def gen_ms(tier):
    for n in (2, 3):
        for cname in all_sets(n):
            for cov in data.COV[n]:
                for mu in data.MU[n]:
                    yield [n, cname, cov, mu]


def run_ms(case, ctx):
    n, cname, cov, mun = case
    spec = all_sets(n)[cname]
    S = np.array(data.COV[n][cov], float) * 1e-2
    mu = np.array(data.MU[n][mun], float) * 0.1
    rl = ref.rules(n, spec)
    feas = ref.feasible(n, rl)
    o = opt.MeanVariance(mu, S, *E.mats(n, spec))
    for kind in ("sharpe", "frontier"):
        ctx.state(); ctx.step()
        try:
            W = o.max_sharpe(0.01).weights if kind == "sharpe" else o.efficient_frontier(4)
        except Exception as exc:
            ctx.out("raised")
            ctx.validated += 1
            # without any inequality the maximum return is not defined in general: an error is accepted
            if kind == "frontier" and feas and cname != "free_short" and ref.lp_max(mu, n, rl)[0] == "ok":
                ctx.refused(exc, f"frontier {case}: feasible problem")
            continue
        ctx.out("returned")
        if not feas:
            ctx.fail(f"{kind} {case}: infeasible constraints but weights returned {np.asarray(W).tolist()}")
            continue
        W = np.asarray(W, float)
        W = W[:, None] if W.ndim == 1 else W
        for j in range(W.shape[1]):
            v = ref.violation(W[:, j], rl)
            ctx.check(v <= 2e-5 * max(1, np.max(np.abs(W[:, j]))), lambda: f"{kind} {case}: {W[:, j].tolist()} breaks a constraint by {v:.3g}")


FAMILIES = [
    Family("models", gen_low, run_low, "5 optimiser classes x all constraint sets (feasible, single point, unbounded, infeasible) x 3 data sets x costs x 7 target levels"),
    Family("facade", gen_facade, run_facade, "9 facade methods x all constraint sets x 3 data sets x route (constructor, per call, dict) x labels x costs"),
    Family("sharpe_frontier", gen_ms, run_ms, "max-Sharpe and frontier x all constraint sets x all covariances x all means"),
]
