"""C03: mean-variance portfolios are truly optimal."""
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation import optimization as opt
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints

LEVEL = "model_checking"
RULE = "case = (universe size, constraint set, covariance, mean, scale, cost configuration); every target level / risk-free rate of the menu is explored inside"
ASSUMPTIONS = ["n <= 4 assets", "solver accuracy 1e-5 relative in the objective"]
LEV = [None, -0.5, 0.0, 0.25, 0.5, 0.75, 0.97, 1.0]
SC = {"unit": (1.0, 1.0), "annual": (0.04, 0.1), "daily": (1e-4, 1e-3), "money": (1e-7, 1e-4)}   # covariance / mean scale


def setup(n, cname, cov, mu, sc):
    a, b = SC[sc]
    return data.CONS[n][cname], np.array(data.COV[n][cov], float) * a, np.array(data.MU[n][mu], float) * b


def impact(n, cost, S):
    w0 = E.w0_of(n)
    if cost == "none":
        return None, None
    k = float(np.trace(S)) / n
    f = {"small": 0.01, "mid": 0.5, "one": 2.0, "huge": 1e5}[cost]
    c = np.array([1.0, 3.0, 0.0, 2.0])[:n] if cost == "one" else np.array([1.0, 2.0, 0.5, 1.5])[:n]
    return w0, k * f * c


def optimum(S, w0, lam, n, rl):
    """exact minimum of w'Sw + (w-w0)'L(w-w0)"""
    P, q, k = S.copy(), np.zeros(n), 0.0
    if lam is not None:
        P = P + np.diag(lam)
        q = -2 * lam * w0
        k = float(lam @ (w0 ** 2))
    sc = float(np.trace(P)) / n
    f, w = ref.qp_min(P / sc, q / sc, n, rl)
    return (None if f is None else f * sc + k), w, sc


def obj(w, S, w0, lam):
    return float(w @ S @ w + (0 if lam is None else lam @ ((w - w0) ** 2)))


def judge(ctx, w, S, w0, lam, n, rl, target_row, what):
    full = rl + ([target_row] if target_row else [])
    best, _, sc = optimum(S, w0, lam, n, full)
    if best is None:
        ctx.fail(f"{what}: portfolio returned for an infeasible problem")
        return None
    v = ref.violation(w, rl)
    ctx.check(v <= 3e-6, lambda: f"{what}: {w.tolist()} infeasible by {v:.2e}")
    if target_row:
        gap = target_row[1] - float(target_row[0] @ w)
        ctx.check(gap <= 3e-6 * max(1e-3, np.max(np.abs(target_row[0]))) + 3e-7, lambda: f"{what}: target missed by {gap:.2e}")
    f = obj(w, S, w0, lam)
    ctx.check(f <= best + 3e-5 * (abs(best) + 0.01 * sc), lambda: f"{what}: objective {f:.10g} of {w.tolist()} above optimum {best:.10g}")
    return f


def gen_targets(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            for cov in data.COV[n]:
                for mu in data.MU[n]:
                    for sc in (["annual", "money"] if tier == "quick" else SC):
                        for cost in (["none", "mid", "one"] if tier == "quick" else ["none", "small", "mid", "one", "huge"]):
                            yield [n, c, cov, mu, sc, cost]


def run_targets(case, ctx):
    n, c, cov, mun, sc, cost = case
    spec, S, mu = setup(n, c, cov, mun, sc)
    rl = ref.rules(n, spec)
    w0, lam = impact(n, cost, S)
    st, hi = ref.lp_max(mu, n, rl)
    st2, lo = ref.lp_max(-mu, n, rl)
    lo = None if lo is None else -lo
    o = opt.MeanVariance(mu, S, *E.mats(n, spec), initial_weights=w0, market_impact_costs=lam)
    for lv in LEV:
        if lv is None:
            t = None
        elif hi is None or lo is None:
            t = (0.2 + lv) * float(np.max(np.abs(mu)))
        else:
            t = lo + lv * (hi - lo)
        what = f"{case} level={lv}"
        if t is not None and st == "unbounded" and np.ptp(mu) == 0:
            continue
        ctx.state(); ctx.step()
        try:
            w = o.efficient_portfolio(t)
        except Exception as exc:
            ctx.out("raised")
            if lv == 1.0:
                continue    # target exactly at the attainable maximum: no interior, a refusal is admissible
            # a free (unbounded) set may have a minimiser the solver cannot certify only when the covariance is singular
            if c == "free_short" and cov in ("sing", "dup", "cash"):
                continue
            ctx.refused(exc, what)
            continue
        ctx.out("solved")
        judge(ctx, np.asarray(w, float), S, w0, lam, n, rl, None if t is None else (mu, t, None), what)


def gen_front(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            if c == "free_short":
                continue
            for cov in data.COV[n]:
                for mu in data.MU[n]:
                    for cost in ("none", "mid"):
                        for k in ((1, 4) + ((2,) if cov == list(data.COV[n])[1] else ()) if tier == "quick" else (1, 2, 3, 4, 7, 12)):
                            for src in ("moments", "scen", "post"):
                                if src == "post" and k != 4:
                                    continue
                                if src != "moments" and (cov != list(data.COV[n])[1] or mu not in list(data.MU[n])[:2]):
                                    continue
                                yield [n, c, cov, mu, cost, k, src]


def run_front(case, ctx):
    n, c, cov, mun, cost, k, src = case
    spec, S, mu = setup(n, c, cov, mun, "daily")
    if src == "post":   # a Bayesian posterior of log returns: everything the facade reports is in simple returns over the horizon
        idx = E.NAMES[:n]
        mu, S = mu * (0.1 / max(np.abs(mu).max(), 1e-12)), S * (0.09 / S.max())
        post = RobustBayesPosterior(mu=pd.Series(mu / 2, index=idx), sigma=pd.DataFrame(S / 2, index=idx, columns=idx), s_mu=pd.DataFrame(S / 20, index=idx, columns=idx))
        g = np.exp(mu + np.diag(S) / 2)
        S = np.outer(g, g) * np.expm1(S)
        mu = g - 1.0
    if src == "scen":
        R = np.array(data.SCEN[n]["A" if mun == list(data.MU[n])[0] else "D"], float) * 0.01
        p = np.arange(1, len(R) + 1, dtype=float)
        p /= p.sum()
        mu = p @ R
        S = (R - mu).T @ np.diag(p) @ (R - mu)
    rl = ref.rules(n, spec)
    w0, lam = impact(n, cost, S)
    tc = None if w0 is None else TransactionCosts(initial_weights=w0, market_impact_costs=lam)
    cons = Constraints(**spec)
    if src == "scen":
        W = E.wrapper_scen(n, R, p, True, constraints=cons, costs=tc)
    elif src == "post":
        W = PortfolioWrapper.from_robust_posterior(post, constraints=cons, costs=tc, annualization_factor=2.0)
    else:
        W = E.wrapper_moments(n, S, mu, True, constraints=cons, costs=tc)
    _, hi = ref.lp_max(mu, n, rl)
    ctx.state(); ctx.step()
    f = W.variance_frontier(k)
    what = str(case)
    w, ret, risk = np.asarray(f.weights), np.asarray(f.returns), np.asarray(f.risks)
    m = w.shape[1]
    best, wstar, sc = optimum(S, w0, lam, n, rl)
    pd_ = np.linalg.eigvalsh(S)[0] > 1e-12 * np.trace(S) or (lam is not None and np.all(lam > 0))
    # reported numbers
    ctx.close(ret, mu @ w, 1e-12, f"{what}: reported returns")
    ctx.close(risk, np.sqrt(np.clip(np.einsum("ij,ik,kj->j", w, S, w), 0, None)), 1e-10, f"{what}: reported risks")
    # ends
    judge(ctx, w[:, 0], S, w0, lam, n, rl, None, what + " first")
    scale = float(np.max(np.abs(mu)))
    if pd_:
        r0 = float(mu @ wstar)
        collapsed = k < 2 or abs(r0 - hi) <= 1e-8 + 1e-5 * abs(hi)
        near = abs(r0 - hi) <= 1e-6 + 1e-4 * abs(hi)     # borderline collapse: either shape is fine
        ctx.check(m == (1 if collapsed else k) or near, f"{what}: {m} portfolios returned, {k} requested")
    else:
        ctx.check(m in (1, k), f"{what}: {m} portfolios returned")
    if m > 1:
        ctx.close(ret[-1], hi, 1e-5 * scale, f"{what}: last return is the attainable maximum")
        grid = np.linspace(ret[0], hi, m)
        ctx.check(np.all(ret >= grid - 2e-5 * scale), lambda: f"{what}: returns {ret} below the even grid {grid}")
        if pd_:
            ctx.close(ret, grid, 2e-4 * scale + 1e-7, f"{what}: even spacing")
        vals = []
        for j in range(m):
            vals.append(judge(ctx, w[:, j], S, w0, lam, n, rl, (mu, grid[j] - 5e-8 * scale, None), f"{what} #{j}"))
        if all(v is not None for v in vals):
            ctx.check(np.all(np.diff(vals) >= -1e-4 * (abs(best) + 0.01 * sc)), lambda: f"{what}: objective decreases along frontier {vals}")
    ctx.check(list(f.asset_names) == E.NAMES[:n], f"{what}: names")
    # single-target facade agrees
    if k == 4:
        for fr in (0.0, 0.5, 0.9):
            t = ret[0] + fr * (hi - ret[0])
            ctx.state(); ctx.step()
            s, r1, k1 = W.min_variance_at_return(t)
            x = np.asarray(s, float)
            judge(ctx, x, S, w0, lam, n, rl, (mu, t, None), f"{what} single {fr}")
            ctx.close(r1, float(mu @ x), 1e-12, f"{what}: single return")
            ctx.close(k1, float(np.sqrt(max(x @ S @ x, 0.0))), 1e-10, f"{what}: single risk")
            ctx.check(list(s.index) == E.NAMES[:n], f"{what}: single labels {list(s.index)}")
    ctx.out(f"m={m}")


RF = [-0.02, 0.0, 0.01, 0.03, 0.06]


def gen_sharpe(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            for cov in data.COV[n]:
                for mu in data.MU[n]:
                    for sc in (["annual"] if tier == "quick" else ["annual", "daily", "unit"]):
                        yield [n, c, cov, mu, sc]


def run_sharpe(case, ctx):
    n, c, cov, mun, sc = case
    spec, S, mu = setup(n, c, cov, mun, sc)
    rl = ref.rules(n, spec)
    if c == "free_budget":
        rl = rl + [(np.ones(n), 1.0, 1.0)]
    V = ref.vertices(n, rl)
    bounded = c != "free_short"
    pts = ref.hull_points(V, 60 if n == 2 else 24, cap=3000) if bounded else None
    unit = float(np.max(np.abs(mu)))
    for rf in RF:
        rf = rf * unit * 10
        ctx.state(); ctx.step()
        o = opt.MeanVariance(mu, S, *E.mats(n, spec))
        what = f"{case} rf={rf:.4g}"
        if not bounded and spec.get("bounds") is None:
            one = np.ones(n)
            if np.linalg.matrix_rank(S) == n:
                # closed form: tangency of the fully invested plane, when its normaliser is positive
                z = np.linalg.solve(S, mu - rf)
                try:
                    w = o.max_sharpe(rf).weights
                except Exception:
                    ctx.out("raised")
                    ctx.check(not (one @ z > 1e-6 * np.max(np.abs(z))), f"{what}: tangency portfolio exists but call failed")
                    continue
                ctx.out("closed form")
                if one @ z > 1e-6 * np.max(np.abs(z)):
                    sr = float((mu - rf) @ w / np.sqrt(w @ S @ w))
                    ctx.close(sr, float(np.sqrt((mu - rf) @ z)), 1e-4, f"{what}: Sharpe ratio")
            continue
        hi = ref.lp_max(mu, n, rl)[1]
        vmin = optimum(S, None, None, n, rl)[0]
        try:
            r = o.max_sharpe(rf)
        except Exception as exc:
            ctx.out("raised")
            # no portfolio earns more than the risk-free rate, or a riskless portfolio exists: ratio has no finite positive maximum
            # (a singular covariance may also leave the interior-point solver without a certificate: a refusal is admissible)
            if hi > rf + 1e-6 * unit and vmin > 1e-9 * np.trace(S) and cov not in ("sing", "dup", "cash"):
                ctx.refused(exc, what, soft=True)
            continue
        ctx.out("solved")
        w = np.asarray(r.weights, float)
        v = ref.violation(w, rl)
        ctx.check(v <= 2e-5, lambda: f"{what}: {w.tolist()} infeasible by {v:.2e}")
        ctx.close(r.nominal_return, float(mu @ w), 1e-9, f"{what}: reported return")
        ctx.close(r.risk, float(np.sqrt(w @ S @ w)), 1e-9, f"{what}: reported risk")
        if hi <= rf + 1e-6 * unit or vmin <= 1e-9 * np.trace(S):
            continue
        ex = mu - rf

        def nsr(x):
            return -float(ex @ x) / np.sqrt(max(float(x @ S @ x), 1e-300))
        got = -nsr(w)
        vals = (pts @ ex) / np.sqrt(np.einsum("ij,jk,ik->i", pts, S, pts))
        j = int(np.argmax(vals))
        ctx.state(len(pts))
        best = float(vals[j])
        # refine the best competitor along every edge direction of the hull (ratio is quasi-concave there)
        x = pts[j]
        for _ in range(3):
            for vtx in V:
                t = np.linspace(0, 1, 101)[:, None]
                seg = (1 - t) * x + t * vtx
                sv = (seg @ ex) / np.sqrt(np.einsum("ij,jk,ik->i", seg, S, seg))
                i = int(np.argmax(sv))
                if sv[i] > best:
                    best, x = float(sv[i]), seg[i]
        ctx.check(got >= best - 1e-5 * abs(best) - 1e-9, lambda: f"{what}: Sharpe {got:.8g} of {w.tolist()} beaten by {x.tolist()} with {best:.8g}")


FAMILIES = [
    Family("targets", gen_targets, run_targets, "all constraint sets x covariances x means x scales x impact costs x 8 target levels, against exact active-set enumeration"),
    Family("frontier", gen_front, run_front, "facade frontiers and single targets: ends, spacing, monotonicity, every column optimal, reported numbers"),
    Family("sharpe", gen_sharpe, run_sharpe, "max-Sharpe against a complete lattice of feasible competitors refined along hull directions, 5 risk-free rates"),
]
