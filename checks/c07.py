"""C07: transaction costs are applied to trades from the initial holdings."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation.portfolioapi import TransactionCosts
from pyvallocation.utils.constraints import Constraints

LEVEL = "model_checking"
RULE = "case = (model, universe size, constraint set, data set, initial holdings, cost pattern); the whole ladder of cost levels explored inside"
ASSUMPTIONS = ["n <= 3 assets", "solver accuracy 1e-5 relative to the objective"]
DATA = {"a": ("pos", "up", "A"), "b": ("neg", "mix", "D"), "c": ("hi", "perm", "A")}
LADDER = [0.0, 0.01, 0.1, 0.5, 1.0, 3.0, 1e3]
PAT = {"flat": [1, 1, 1], "steep": [0.2, 1.0, 3.0], "onefree": [1.0, 0.0, 2.0], "back": [2.0, 0.5, 0.1]}
W0 = {2: [[0.75, 0.25], [0.5, 0.5], [0.0, 1.0], [1.25, -0.25], [0.25, 0.125]], 3: [[0.5, 0.125, 0.375], [0.25, 0.5, 0.25], [0.0, 0.0, 1.0], [0.875, -0.25, 0.375], [0.25, 0.0, 0.375]]}


def prob(n, d):
    cov, mu, sc = DATA[d]
    if n == 2 and mu == "perm":
        mu = "down"
    S = np.array(data.COV[n][cov], float) * 4e-4
    m = np.array(data.MU[n][mu], float) * 0.01
    R = np.array(data.SCEN[n][sc], float) * 0.01
    p = np.arange(2.0, len(R) + 2); p /= p.sum()
    return S, m, R, p


def gen(tier):
    for model in ("mv", "cvar", "rob", "robcap"):
        for n in (2, 3):
            for c in data.CONS[n]:
                if c in ("free_short",):
                    continue
                for d in DATA:
                    if d == "b" and n == 2 and model == "cvar":
                        pass
                    for i in range(5):
                        for pat in PAT:
                            if tier == "quick" and pat not in (PAT, ["steep"], ["steep", "onefree", "back"], ["flat", "steep"], ["onefree"])[i]:
                                continue
                            yield [model, n, c, d, i, pat]


def run(case, ctx):
    model, n, c, d, i, pat = case
    spec = data.CONS[n][c]
    S, mu, R, p = prob(n, d)
    rl = ref.rules(n, spec)
    w0 = np.array(W0[n][i])
    base = np.array(PAT[pat][:n], float)
    cons = Constraints(**spec)
    m = p @ R if model == "cvar" else mu
    hi = ref.lp_max(m, n, rl)[1]
    lo = -ref.lp_max(-m, n, rl)[1]
    t = lo + 0.4 * (hi - lo)
    unit = {"mv": float(np.trace(S)) / n, "cvar": float(np.abs(R).max()), "rob": float(np.abs(mu).max()), "robcap": float(np.abs(mu).max())}[model]
    wv, V = np.linalg.eigh(S)
    L = V * np.sqrt(np.clip(wv, 0, None))
    lam = 0.5
    full = rl + ([(m, t, None)] if model in ("mv", "cvar") else [])
    cap = None
    if model == "robcap":
        rmin, _ = ref.norm_min(np.zeros(n), L, 1.0, n, rl)
        cap = 1.3 * rmin
    W = E.wrapper_scen(n, R, p, True, constraints=cons) if model == "cvar" else E.wrapper_moments(n, S, mu, True, constraints=cons)

    def solve(tc):
        ctx.step()
        if model == "mv":
            return np.asarray(W.min_variance_at_return(t, costs=tc)[0], float)
        if model == "cvar":
            return np.asarray(W.min_cvar_at_return(t, alpha=0.3, costs=tc)[0], float)
        if model == "robcap":
            return np.asarray(W.solve_robust_gamma_portfolio(lam, cap * cap, costs=tc)[0], float)
        return np.asarray(W.robust_lambda_frontier(lambdas=[lam], costs=tc).weights)[:, 0]

    def risk(w):
        if model == "mv":
            return float(w @ S @ w)
        if model == "cvar":
            return ref.cvar(R @ w, p, 0.3)
        return float(-mu @ w + lam * np.linalg.norm(L.T @ w))

    def units(w):
        return float(base @ ((w - w0) ** 2)) if model == "mv" else float(base @ np.abs(w - w0))

    def best(cost, f, tol):
        if model == "mv":
            P = S + np.diag(cost)
            s = float(np.trace(P)) / n
            v, _ = ref.qp_min(P / s, -2 * cost * w0 / s, n, full)
            return v * s + float(cost @ w0 ** 2)
        if model == "cvar":
            return ref.cvar_lp(R, p, 0.3, n, rl, target=t, w0=w0, cost=cost)[0]
        return ref.norm_min(mu, L, lam, n, rl, w0, cost, cap=cap, goal=f - tol / 2, seeds=[])[0]
    w0_ok = ref.violation(w0, full) <= 1e-12 and (cap is None or np.linalg.norm(L.T @ w0) <= cap * 0.999)
    free = solve(None)
    prev = None
    for k in LADDER:
        cost = base * k * unit
        key = "market_impact_costs" if model == "mv" else "proportional_costs"
        what = f"{case} k={k}"
        ctx.state()
        try:
            w = solve(TransactionCosts(initial_weights=w0, **{key: cost}))
        except Exception as exc:
            ctx.refused(exc, what)
            continue
        v = ref.violation(w, full)
        ctx.check(v <= 3e-6, lambda: f"{what}: infeasible by {v:.2e}")
        f = risk(w) + k * unit * units(w)
        tol = 3e-5 * unit * (1 + (k if model == "mv" else min(k, 3)))
        if model in ("rob", "robcap"):
            tol = max(tol, 1e-5 if model == "robcap" else 4e-6) * (1 if k < 100 else 5)
        b = best(cost, f, tol)
        ctx.check(b is not None and f <= b + max(tol, 1e-5 * abs(b)), lambda: f"{what}: risk plus cost {f:.9g} of {w.tolist()} above optimum {b:.9g}")
        if k == 0:
            ctx.close(risk(w), risk(free), 5 * tol / max(unit, 1e-9) * unit, f"{what}: zero costs change the result")
        if prev is not None and k > prev[0]:
            slack = 2 * tol / ((k - prev[0]) * unit) + 1e-6
            ctx.check(units(w) <= prev[1] + slack, lambda: f"{what}: cost units traded grow from {prev[1]} to {units(w)}")
        if k == LADDER[-1] and w0_ok:
            moved = np.abs(w - w0)[base > 0].max(initial=0)
            # quadratic costs of 1000 units still allow a move of order range(S) / (k * base)
            lim = 1e-4 if model != "mv" else 2e-3 + 4 * np.abs(S).max() / (k * unit * base[base > 0].min()) * (1 + np.abs(w0).max())
            ctx.check(moved <= lim, lambda: f"{what}: prohibitive costs but holdings {w0} moved to {w}")
            ctx.out("stays")
        prev = (k, units(w))
    ctx.out("ladder")


def gen_lab(tier):
    for entry in ("mv", "mv_front", "cvar", "cvar_front", "rob", "robcap"):
        for n in (2, 3):
            for d in ("a", "c"):
                for perm in data.perms(n):
                    for route in ("ctor", "call"):
                        for form in ("arr", "ser", "ser_plain", "mixed", "both"):
                            for shares in (True, False):
                                yield [entry, n, d, list(perm), route, form, shares]


def run_lab(case, ctx):
    entry, n, d, perm, route, form, shares = case
    S, mu, R, p = prob(n, d)
    names = E.NAMES[:n]
    w0 = np.array(W0[n][0])
    key = "market_impact_costs" if entry.startswith("mv") else "proportional_costs"
    unit = float(np.trace(S)) / n * 0.7 if entry.startswith("mv") else float(np.abs(R).max()) * 0.08
    cost = unit * np.array([0.3, 1.5, 0.9][:n])

    def ser(v, pm=perm):
        return pd.Series([v[i] for i in pm], index=[names[i] for i in pm])

    def run_with(tc):
        kw = {"costs": tc} if route == "ctor" else {}
        W = E.wrapper_scen(n, R, p, True, **kw) if entry.startswith("cvar") else E.wrapper_moments(n, S, mu, True, **kw)
        mk = {"costs": tc} if route == "call" else {}
        m = p @ R if entry.startswith("cvar") else mu
        t = float(np.sort(m)[0] * 0.6 + np.sort(m)[-1] * 0.4)
        ctx.step()
        if entry == "mv":
            return np.asarray(W.min_variance_at_return(t, **mk)[0], float)
        if entry == "cvar":
            return np.asarray(W.min_cvar_at_return(t, alpha=0.3, **mk)[0], float)
        if entry == "mv_front":
            return np.asarray(W.variance_frontier(3, **mk).weights)
        if entry == "cvar_front":
            return np.asarray(W.cvar_frontier(3, alpha=0.3, **mk).weights)
        if entry == "rob":
            return np.asarray(W.robust_lambda_frontier(lambdas=[0.2, 1.0], **mk).weights)
        return np.asarray(W.solve_robust_gamma_portfolio(0.2, 1.0, **mk)[0], float)
    what = str(case)
    ref_w = run_with(TransactionCosts(initial_weights=w0, **{key: cost}))
    ctx.state()
    if form == "arr":
        tc = TransactionCosts(initial_weights=list(w0), **{key: list(cost)})
    elif form == "ser":
        tc = TransactionCosts(initial_weights=ser(w0), **{key: ser(cost)})
    elif form == "mixed":
        tc = TransactionCosts(initial_weights=ser(w0), **{key: cost})
    elif form == "both":
        # quadratic costs belong to mean-variance, linear ones to the other models; costs of the other kind play no part
        other = {"market_impact_costs": "proportional_costs", "proportional_costs": "market_impact_costs"}[key]
        tc = TransactionCosts(initial_weights=w0, **{key: cost, other: cost[::-1] * 3 + 0.1})
    else:
        tc = TransactionCosts(initial_weights=pd.Series(w0), **{key: pd.Series(cost)})
    got = run_with(tc)
    ctx.close(got, ref_w, 1e-9, f"{what}: labelled costs give a different result")
    if shares:
        # the matching cost vector really matters: another assignment of costs gives another optimum somewhere; wrong shapes and labels are refused
        for bad in (pd.Series(cost, index=["x%d" % i for i in range(n)]), np.append(cost, 0.1), cost[:-1]):
            for bw in (0, 1):
                iw, c2 = (w0, bad) if bw == 0 else (bad, cost)
                ctx.raises(lambda: run_with(TransactionCosts(initial_weights=iw, **{key: c2})), Exception, f"{what}: malformed costs {bad!r}")
    ctx.out(form)


FAMILIES = [
    Family("ladder", gen, run, "4 models x all constraint sets x data x initial holdings (invested, short, partly in cash) x cost patterns; 7 cost levels: optimum, zero, prohibitive, monotone trading"),
    Family("labels", gen_lab, run_lab, "6 entry points x all asset orders of labelled costs x route x form, and malformed costs"),
]
