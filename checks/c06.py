"""C06: risk parity portfolios deliver the requested budgets and targets."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation import optimization as opt
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import PortfolioWrapper
from pyvallocation.utils.constraints import Constraints
from .c02 import rrp_rules

LEVEL = "model_checking"
RULE = "case = (covariance, budgets, constraint set, regulariser); targets explored inside"
ASSUMPTIONS = ["n <= 4 assets", "positive definite covariances for exact budgets", "risk shares to 2e-4 (solver accuracy 1e-7 in psi - gamma)"]

BUD = {2: [None, [0.5, 0.5], [0.7, 0.3], [0.1, 0.9], [3.0, 1.0], [0.03, 0.01]],
       3: [None, [0.5, 0.3, 0.2], [0.1, 0.1, 0.8], [0.05, 0.6, 0.35], [1.0, 2.0, 1.0], [0.02, 0.05, 0.03]],
       4: [None, [0.4, 0.3, 0.2, 0.1], [0.05, 0.05, 0.2, 0.7], [0.01, 0.04, 0.02, 0.03]]}
VOLS = {2: [(1, 1), (1, 3), (5, 0.5)], 3: [(1, 1, 1), (1, 2, 4), (3, 0.5, 1)], 4: [(1, 1, 1, 1), (1, 2, 0.5, 3)]}


def gen_erc(tier):
    for n in (2, 3, 4):
        grid = {2: [-0.9, -0.5, 0.0, 0.5, 0.95], 3: [-0.4, 0.0, 0.7], 4: [-0.25, 0.4]}[n]
        if tier != "quick":
            grid = {2: [-0.98, -0.9, -0.7, -0.5, -0.2, 0.0, 0.2, 0.5, 0.8, 0.95, 0.99], 3: [-0.8, -0.45, -0.2, 0.0, 0.3, 0.7, 0.95], 4: [-0.3, 0.0, 0.6]}[n]
        pairs = list(itertools.combinations(range(n), 2))
        for rho in itertools.product(grid, repeat=len(pairs)):
            C = np.eye(n)
            for (i, j), r in zip(pairs, rho):
                C[i, j] = C[j, i] = r
            if np.linalg.eigvalsh(C)[0] < 0.01:
                continue
            for v in range(len(VOLS[n])):
                for b in range(len(BUD[n])):
                    for sc in (0.2, 0.01):
                        yield [n, list(rho), v, b, sc]


def run_erc(case, ctx):
    n, rho, v, bi, sc = case
    C = np.eye(n)
    for (i, j), r in zip(itertools.combinations(range(n), 2), rho):
        C[i, j] = C[j, i] = r
    s = np.array(VOLS[n][v], float) * sc
    S = C * np.outer(s, s)
    mu = np.linspace(0.02, 0.08, n)
    b = BUD[n][bi]
    want = np.full(n, 1.0 / n) if b is None else np.array(b) / np.sum(b)
    what = str(case)
    ctx.state(); ctx.step()
    names = E.NAMES[:n]
    W = E.wrapper_moments(n, S, mu, True)
    w, ret, risk, dg = W.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=0.0, target_multiplier=None, risk_budgets=b)
    x = np.asarray(w, float)
    share = x * (S @ x) / (x @ S @ x)
    tol = 2e-4
    ctx.check(abs(x.sum() - 1) < 1e-6 and np.all(x > 0), f"{what}: weights {x}")
    ctx.check(np.max(np.abs(share - want)) <= tol, lambda: f"{what}: risk shares {share} instead of {want}")
    ctx.close(ret, float(mu @ x), 1e-12, f"{what}: return")
    ctx.close(risk, float(np.sqrt(x @ S @ x)), 1e-10, f"{what}: volatility")
    ctx.close(dg["risk_contributions_pct"], 100 * share, 1e-5, f"{what}: contribution percentages")
    ctx.close(dg["portfolio_variance"], float(x @ S @ x), 1e-9, f"{what}: variance diagnostic")
    ctx.close(dg["risk_contributions"] / (x @ S @ x), share, 1e-5, f"{what}: contributions diagnostic")
    ctx.close(dg["marginal_risk"] / np.abs(S @ x).max(), S @ x / np.abs(S @ x).max(), 1e-5, f"{what}: marginal risk diagnostic")
    ctx.check(abs(dg["objective"]) <= 1e-5 * risk + 2e-6, f"{what}: objective {dg['objective']} should vanish at parity")
    ctx.check(dg["target_return"] is None and dg["requested_target"] is None and not dg["target_clipped"], f"{what}: target diagnostics {dg['target_return']}")
    ctx.check(list(w.index) == names, f"{what}: labels")
    ctx.out("budgets met")


TG = [None, -0.3, 0.3, 0.7, 0.98, 1.2]


def gen_rel(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            for cov in data.COV[n]:
                if cov in ("sing", "dup", "cash"):
                    continue
                for mu in ("up", "mix", "neg") if n < 4 else ("up", "mix"):
                    for lam in (0.0, 0.2, 2.0) + ((0.005,) if n == 2 and mu == "up" else ()):
                        if lam == 0.005 and cov == "id":
                            continue
                        for b in ((0, (2, len(BUD[n]) - 1)[len(c) % 2]) if tier == "quick" else range(len(BUD[n]))):
                            if tier == "quick" and b and lam == 2.0:
                                continue
                            yield [n, c, cov, mu, lam, b]


def run_rel(case, ctx):
    n, c, cov, mun, lam, bi = case
    spec = data.CONS[n][c]
    S = np.array(data.COV[n][cov], float) * 0.01
    mu = np.array(data.MU[n][mun], float) * 0.1
    rl = rrp_rules(n, spec, S)
    b = BUD[n][bi]
    bud = None if b is None else np.array(b) / np.sum(b)
    feas = ref.feasible(n, rl)
    mats = E.mats(n, spec)
    o = opt.RelaxedRiskParity(mu, S, *mats, risk_budgets=b)
    hi = ref.lp_max(mu, n, rl)[1]
    lo = ref.lp_max(-mu, n, rl)[1]
    for lv in TG:
        what = f"{case} level={lv}"
        t = None if lv is None or not feas else -lo + lv * max(hi + lo, 0.01)
        ctx.state(); ctx.step()
        try:
            r = o.solve(lambda_reg=lam, return_target=t)
        except Exception as exc:
            ctx.out("raised")
            if feas and not (lv is not None and hi + lo < 1e-6):
                ctx.refused(exc, what)
            continue
        ctx.out("solved")
        if not feas:
            ctx.fail(f"{what}: infeasible constraints but returned {r.weights.tolist()}")
            continue
        x = np.asarray(r.weights, float)
        v = ref.violation(x, rl)
        ctx.check(v <= 3e-6, lambda: f"{what}: {x.tolist()} infeasible by {v:.2e}")
        full = list(rl)
        if t is None:
            ctx.check(r.target_return is None and r.max_return is None, f"{what}: unexpected target in the result")
        else:
            ctx.close(r.max_return, hi, 1e-7, f"{what}: reported attainable return")
            eff = r.target_return
            if t <= hi - 2e-3 * abs(hi) - 1e-6:
                ctx.close(eff, t, 1e-12, f"{what}: attainable target changed")
            else:
                ctx.check(hi - 2e-3 * abs(hi) - 1e-6 <= eff <= hi + 1e-9, lambda: f"{what}: unattainable target {t} clipped to {eff}, attainable {hi}")
            ctx.check(mu @ x >= eff - 1e-7, lambda: f"{what}: return {mu @ x} misses the reported target {eff}")
            full.append((mu, eff, None))
        f = ref.rrp_value(x, S, lam, bud)
        scale = float(np.sqrt(np.trace(S)))
        low = ref.rrp_bound(S, lam, bud, full, seeds=[x], goal=f - 4e-6 * (1 + scale))
        ctx.check(low is not None and f <= low + 1e-5 * (1 + scale), lambda: f"{what}: objective {f:.8g} of {x.tolist()} above optimum {low:.8g}")
        # reported conic variables describe the returned weights
        ctx.close(np.asarray(r.marginal_risk), S @ x, 1e-6, f"{what}: marginal risk")
        ctx.close(r.objective, f, 2e-5 * (1 + scale), f"{what}: reported objective")
        ctx.close(r.objective, r.psi - r.gamma, 1e-12, f"{what}: objective is psi - gamma")
        ctx.check(r.psi >= np.sqrt(x @ S @ x / n + lam * np.sum(np.diag(S) * x * x)) - 2e-6, f"{what}: psi below its definition")
        ctx.check(r.rho >= np.sqrt(lam * np.sum(np.diag(S) * x * x)) - 2e-6, f"{what}: rho below its definition")


def gen_fac(tier):
    for n in (2, 3):
        for c in data.CONS[n]:
            for cov in ("pos", "neg", "hi"):
                for mu in ("up", "mix", "neg"):
                    for mode in FAC_MODES:
                        for b in (0, 2) if mode in ("mult", "front") else (0,):
                            yield [n, c, cov, mu, mode, b]


FAC_MODES = ("mult", "target_lo", "target_mid", "target_hi", "none", "front", "front_list", "front_nobase")


def gen_post(tier):
    """The same facade calls on a Bayesian posterior of log returns, over horizons of one and several steps."""
    for n in (2, 3):
        for c in list(data.CONS[n])[:3 if tier == "quick" else None]:
            for cov in ("pos", "neg") if tier == "quick" else ("pos", "neg", "hi"):
                for mu in ("up", "mix", "neg"):
                    for mode in FAC_MODES:
                        for h in (1.0, 4.0):
                            yield [n, c, cov, mu, mode, 2 if mode in ("none", "mult") else 0, h]


def run_fac(case, ctx):
    n, c, cov, mun, mode, bi = case[:6]
    spec = data.CONS[n][c]
    S = np.array(data.COV[n][cov], float) * 0.01
    mu = np.array(data.MU[n][mun], float) * 0.1
    W = None
    if len(case) == 7:  # everything the facade reports is in simple returns over the horizon
        h = case[6]
        idx = E.NAMES[:n]
        post = RobustBayesPosterior(mu=pd.Series(mu, index=idx), sigma=pd.DataFrame(S, index=idx, columns=idx), s_mu=pd.DataFrame(S / 9, index=idx, columns=idx))
        W = PortfolioWrapper.from_robust_posterior(post, constraints=Constraints(**spec), annualization_factor=h)
        g = np.exp(h * (mu + np.diag(S) / 2))
        S = np.outer(g, g) * np.expm1(h * S)
        mu = g - 1.0
    rl = rrp_rules(n, spec, S)
    if not ref.feasible(n, rl):
        ctx.out("infeasible")
        return
    b = BUD[n][bi]
    bud = None if b is None else np.array(b) / np.sum(b)
    W = E.wrapper_moments(n, S, mu, True, constraints=Constraints(**spec)) if W is None else W
    hi = ref.lp_max(mu, n, rl)[1]
    names = E.NAMES[:n]
    lam = 0.3
    what = str(case)
    scale = float(np.sqrt(np.trace(S)))
    ctx.state(); ctx.step()

    def optimal(x, lam, eff, tag):
        full = list(rl) + ([] if eff is None else [(mu, eff, None)])
        v = ref.violation(x, full)
        ctx.check(v <= 3e-6, lambda: f"{what} {tag}: {x.tolist()} infeasible by {v:.2e}")
        f = ref.rrp_value(x, S, lam, bud)
        low = ref.rrp_bound(S, lam, bud, full, seeds=[x], goal=f - 4e-6 * (1 + scale))
        ctx.check(low is not None and f <= low + 1e-5 * (1 + scale), lambda: f"{what} {tag}: objective {f:.8g} above optimum {low:.8g}")
        return f
    if mode.startswith("front"):
        kw = dict(lambda_reg=lam, risk_budgets=b)
        if mode == "front":
            f = W.relaxed_risk_parity_frontier(3, 1.5, **kw)
            mult = [None, 1.0, 1.25, 1.5]
        elif mode == "front_list":
            f = W.relaxed_risk_parity_frontier(target_multipliers=[1.4, 0.5, 1.1], **kw)
            mult = [None, 1.4, 0.5, 1.1]
        else:
            f = W.relaxed_risk_parity_frontier(2, 1.2, include_risk_parity=False, **kw)
            mult = [1.0, 1.2]
        w = np.asarray(f.weights)
        ctx.check(w.shape[1] == len(mult) and len(f.metadata) == len(mult), f"{what}: {w.shape[1]} columns")
        ctx.close(f.returns, mu @ w, 1e-12, f"{what}: returns")
        ctx.close(f.risks, np.sqrt(np.einsum("ij,ik,kj->j", w, S, w)), 1e-10, f"{what}: risks")
        ctx.check(list(f.asset_names) == names, f"{what}: names")
        rp = np.asarray(W.relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None, risk_budgets=b)[0], float)
        base = max(float(mu @ rp), 0.0)
        for j, m in enumerate(mult):
            md = f.metadata[j]
            ctx.check(md["target_multiplier"] == m or (m is not None and abs(md["target_multiplier"] - m) < 1e-12), f"{what} #{j}: multiplier {md['target_multiplier']} for {m}")
            if m is None:
                ctx.check(md["effective_target"] is None and md["lambda_reg"] == 0.0, f"{what} #{j}: anchor metadata")
                ctx.close(w[:, j], rp, 1e-6, f"{what}: anchor is the pure risk parity portfolio")
            else:
                ctx.close(md["requested_target"], m * base, 1e-6, f"{what} #{j}: requested target")
                eff = md["effective_target"]
                if eff is None:
                    ctx.check(md["solver_warning"] is not None, f"{what} #{j}: target dropped silently")
                    ctx.check(m * base > hi * (1 - 3e-3) - 1e-6 or base > hi * (1 - 3e-3) - 1e-6, f"{what} #{j}: attainable target {m * base} (max {hi}) dropped")
                else:
                    ctx.check(eff <= hi + 1e-8, f"{what} #{j}: effective target {eff} above attainable {hi}")
                    if base <= m * base <= hi * (1 - 3e-3) - 1e-6:
                        ctx.close(eff, m * base, 1e-6, f"{what} #{j}: attainable target changed")
            f0 = optimal(w[:, j], 0.0 if m is None else lam, None if m is None else md["effective_target"], f"#{j}")
            ctx.close(md["objective"], f0, 2e-5 * (1 + scale), f"{what} #{j}: objective metadata")
            ctx.close(md["psi"] - md["gamma"], md["objective"], 1e-10, f"{what} #{j}: psi - gamma")
        ctx.out("frontier")
        return
    kw = dict(lambda_reg=lam, risk_budgets=b)
    rp = np.asarray(W.relaxed_risk_parity_portfolio(lambda_reg=0.0, target_multiplier=None, risk_budgets=b)[0], float)
    base = float(mu @ rp)
    if mode == "mult":
        kw["target_multiplier"] = 1.2
        req = 1.2 * max(base, 0.0)
    elif mode == "none":
        kw["lambda_reg"] = 0.0
        kw["target_multiplier"] = None
        req = None
    else:
        lvl = {"target_lo": 0.2, "target_mid": 0.7, "target_hi": 1.5}[mode]
        req = base + lvl * (hi - base) if lvl > 0.5 else base - 0.01
        if mode == "target_hi":
            req = hi + 0.02
        kw["return_target"] = req
    w, ret, risk, dg = W.relaxed_risk_parity_portfolio_with_diagnostics(**kw)
    x = np.asarray(w, float)
    lam_used = kw["lambda_reg"]
    ctx.close(ret, float(mu @ x), 1e-12, f"{what}: return")
    ctx.close(risk, float(np.sqrt(x @ S @ x)), 1e-10, f"{what}: risk")
    ctx.close(dg["achieved_return"], ret, 1e-12, f"{what}: achieved diagnostic")
    ctx.close(dg["portfolio_variance"], risk ** 2, 1e-9, f"{what}: variance diagnostic")
    ctx.close(dg["risk_parity_return"], base, 1e-6, f"{what}: benchmark return")
    ctx.close(dg["risk_parity_weights"], rp, 1e-6, f"{what}: benchmark weights")
    ctx.close(dg["risk_contributions"], x * (S @ x), 1e-6, f"{what}: contributions")
    ctx.close(np.sum(dg["risk_contributions_pct"]), 100.0, 1e-4, f"{what}: percentages")
    ctx.check(dg["lambda_reg"] == lam_used, f"{what}: lambda diagnostic")
    if req is not None:
        ctx.close(dg["requested_target"], req, 1e-6, f"{what}: requested target")
    eff = dg["target_return"]
    if eff is None and req is not None:
        ctx.check(dg["solver_warning"] is not None, f"{what}: target dropped silently")
        ctx.check(max(req, base) > hi * (1 - 3e-3) - 1e-6 or base > hi * (1 - 3e-3) - 1e-6 or base < 0, f"{what}: attainable target {req} (max {hi}) dropped")
    if eff is not None:
        ctx.check(eff <= hi + 1e-8 and ret >= eff - 1e-6, lambda: f"{what}: effective target {eff}, max {hi}, achieved {ret}")
        ctx.close(dg["max_feasible_return"], hi, 1e-7, f"{what}: attainable return")
        if base <= req <= hi - 3e-3 * abs(hi) - 1e-6 and req >= 0:
            ctx.close(eff, req, 1e-9, f"{what}: attainable target changed")
            ctx.check(not dg["target_clipped"], f"{what}: marked clipped")
        if req > hi + 1e-6:
            ctx.check(dg["target_clipped"], f"{what}: clipping of {req} to {eff} not reported")
    f0 = optimal(x, lam_used, eff, mode)
    ctx.close(dg["objective"], f0, 2e-5 * (1 + scale), f"{what}: objective diagnostic")
    w2, r2, k2 = W.relaxed_risk_parity_portfolio(**kw)
    ctx.close(np.asarray(w2, float), x, 1e-9, f"{what}: plain call agrees with diagnostics call")
    ctx.check(list(w.index) == names, f"{what}: labels")
    if spec.get("bounds") is None and mode == "none" and case[1] == list(data.CONS[n])[0]:
        ctx.out("shares")
        ctx.close(dg["risk_contributions_pct"], 100 * (np.full(n, 1 / n) if bud is None else bud), 0.05, f"{what}: percentages are the budgets")
    ctx.out("single" + ("" if eff is None else " target"))


ROWS = {2: [([[2.0, 0.0]], [0.8]), ([[1.5, 0.5]], [1.1]), ([[1.0, 1.0]], [0.8]), ([[1.0, 1.0]], [2.0]), ([[1.0, -1.0]], [0.1])],
        3: [([[1.5, 1.5, 0.0]], [0.9]), ([[3.0, 0.0, 0.0]], [0.9]), ([[0.5, 1.0, 1.5]], [1.1]), ([[1.0, 1.0, 1.0]], [0.8]), ([[1.0, 1.0, 0.0]], [0.7]),
            ([[1.0, 1.0, 1.0], [2.0, 1.0, 0.0]], [1.0, 0.9]), ([[2.0, 1.0, 0.0], [1.0, 1.0, 1.0]], [0.9, 1.5])]}


def gen_rows(tier):
    for n in (2, 3):
        for cov in data.COV[n]:
            if cov in ("sing", "dup", "cash"):
                continue
            for r in range(len(ROWS[n])):
                for mu in ("up", "neg"):
                    for lam in (0.0, 0.3):
                        yield [n, cov, r, mu, lam]


def run_rows(case, ctx):
    """Equality rows handed to the optimiser directly: fully invested unless a row sets the total itself; floors on the target of either sign."""
    n, cov, r, mun, lam = case
    A, b = (np.array(v, float) for v in ROWS[n][r])
    S = np.array(data.COV[n][cov], float) * 0.01
    mu = np.array(data.MU[n][mun], float) * 0.1
    rl = ref.rules(n, dict(long_only=True, total_weight=None)) + [(S[i], 0.0, None) for i in range(n)] + [(a, t, t) for a, t in zip(A, b)]
    if not any(np.array_equal(a, np.ones(n)) for a in A):
        rl.append((np.ones(n), 1.0, 1.0))
    o = opt.RelaxedRiskParity(mu, S, None, None, A, b)
    if not ref.feasible(n, rl):
        ctx.out("infeasible")
        ctx.raises(lambda: o.solve(lambda_reg=lam), Exception, f"{case}: contradictory rows accepted")
        ctx.state(); ctx.step()
        return
    hi, lo = ref.lp_max(mu, n, rl)[1], -ref.lp_max(-mu, n, rl)[1]
    mid = lo + 0.5 * (hi - lo)
    scale = float(np.sqrt(np.trace(S)))
    for t, floor in ((None, None), (mid, None), (lo - 0.02, mid), (lo - 0.02, lo - 0.01), (mid, lo - 0.01)):
        what = f"{case} target={t} floor={floor}"
        ctx.state(); ctx.step()
        try:
            res = o.solve(lambda_reg=lam, return_target=t, min_target=floor)
        except Exception as exc:
            ctx.refused(exc, what)
            continue
        x = np.asarray(res.weights, float)
        full = list(rl)
        if t is not None:
            top = hi - max(1e-8, 1e-3 * abs(hi))
            eff = min(t, top) if floor is None else max(min(t, top), floor)
            ctx.close(res.target_return, eff, 1e-7, f"{what}: effective target")
            ctx.close(res.max_return, hi, 1e-7, f"{what}: attainable return")
            full.append((mu, eff, None))
        v = ref.violation(x, full)
        ctx.check(v <= 3e-6, lambda: f"{what}: {x.tolist()} infeasible by {v:.2e}")
        f = ref.rrp_value(x, S, lam, None)
        low = ref.rrp_bound(S, lam, None, full, seeds=[x], goal=f - 4e-6 * (1 + scale))
        ctx.check(low is not None and f <= low + 1e-5 * (1 + scale), lambda: f"{what}: objective {f:.8g} of {x.tolist()} above optimum {low:.8g}")
    ctx.out("solved")


FAMILIES = [
    Family("budgets", gen_erc, run_erc, "all correlation grids x volatility patterns x budgets x scales: risk shares equal budgets"),
    Family("relaxed", gen_rel, run_rel, "all constraint sets x covariances x means x regularisers x budgets x targets: cutting-plane optimum of the documented objective"),
    Family("own rows", gen_rows, run_rows, "equality rows given directly (totals other than one, multiples of the budget row, rows that merely resemble it) x covariances x targets and target floors of either sign"),
    Family("facade", gen_fac, run_fac, "facade portfolios, diagnostics and frontiers"),
    Family("posterior", gen_post, run_fac, "the same portfolios, diagnostics and frontiers on Bayesian posteriors of log returns over horizons of 1 and 4 steps, judged in the simple returns they are reported in"),
]
