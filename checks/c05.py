"""C05: robust portfolios minimise worst-case loss over the stated ellipsoid."""
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation import optimization as opt
from pyvallocation.portfolioapi import TransactionCosts
from pyvallocation.utils.constraints import Constraints

LEVEL = "model_checking"
RULE = "case = (universe size, constraint set, uncertainty matrix, mean, scale, costs); all penalties and radius caps explored inside"
ASSUMPTIONS = ["n <= 4 assets", "reference optimum from a cutting-plane lower bound (every cut valid), solver accuracy 2e-6 absolute"]
LAMS = [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
SC = {"unit": (0.25, 0.5), "annual": (0.01, 0.1)}


def setup(n, c, cov, mu, sc):
    a, b = SC[sc]
    return data.CONS[n][c], np.array(data.COV[n][cov], float) * a, np.array(data.MU[n][mu], float) * b


def root(S):
    w, V = np.linalg.eigh(S)
    return V * np.sqrt(np.clip(w, 0, None))      # L L' = S


def cost(n, kind, scale):
    if kind == "none":
        return None, None
    return E.w0_of(n), scale * {"small": 0.02, "mid": 0.3}[kind] * np.array([1.0, 0.2, 2.0, 0.6])[:n]


def bounded(c):
    return c != "free_short"


def gen_low(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            if not bounded(c):
                continue
            for cov in data.COV[n]:
                if tier == "quick" and n == 3 and cov in ("diag", "dup"):
                    continue
                for mu in data.MU[n]:
                    for sc in ("annual",) if tier == "quick" else SC:
                        for k in ("none", "mid") if tier == "quick" else ("none", "small", "mid"):
                            if tier == "quick" and mu in ("tie", "neg") and k == "mid":
                                continue
                            yield [n, c, cov, mu, sc, k]


def run_low(case, ctx):
    n, c, cov, mun, sc, kind = case
    spec, S, mu = setup(n, c, cov, mun, sc)
    rl = ref.rules(n, spec)
    L = root(S)
    w0, pc = cost(n, kind, float(np.abs(mu).max()))
    o = opt.RobustOptimizer(mu, S, *E.mats(n, spec), initial_weights=w0, proportional_costs=pc)
    jit = 2e-5 if cov in ("sing", "dup", "cash") else 0.0

    def val(w, lam):
        return float(-mu @ w + lam * np.linalg.norm(L.T @ w) + (0 if pc is None else pc @ np.abs(w - w0)))

    def norm_ok(res, what):
        w = np.asarray(res.weights, float)
        ctx.close(res.risk, float(np.linalg.norm(L.T @ w)), 1e-6 + jit * 50, f"{what}: reported radius")
        ctx.close(res.nominal_return, float(mu @ w), 1e-10, f"{what}: reported return")
        return w
    radii = []
    for lam in LAMS:
        what = f"{case} lambda={lam}"
        ctx.state(); ctx.step()
        try:
            res = o.solve_lambda_variant(lam)
        except Exception as exc:
            ctx.refused(exc, what)
            continue
        w = norm_ok(res, what)
        v = ref.violation(w, rl)
        ctx.check(v <= 3e-6, lambda: f"{what}: {w.tolist()} infeasible by {v:.2e}")
        f = val(w, lam)
        low, up = ref.norm_min(mu, L, lam, n, rl, w0, pc, seeds=[w], goal=f - 2e-6 * (1 + lam) - jit * lam)
        ctx.check(low is not None and f <= low + 3e-6 * (1 + lam) + jit * lam, lambda: f"{what}: objective {f:.9g} of {w.tolist()} above the optimum {low:.9g}")
        radii.append((lam, float(np.linalg.norm(L.T @ w)), f))
    for (l1, r1, f1), (l2, r2, f2) in zip(radii, radii[1:]):
        # radius monotone up to the resolution implied by objective errors
        slack = (6e-6 * (2 + l1 + l2) + jit * (l1 + l2)) / (l2 - l1) + 1e-6
        ctx.check(r2 <= r1 + slack, lambda: f"{case}: radius grows from {r1} to {r2} when lambda goes {l1}->{l2}")
    # capped variant
    if not radii:
        return
    rmin, _ = ref.norm_min(np.zeros(n), L, 1.0, n, rl)
    rmax = radii[0][1]
    for gm in (0.0, 0.5):
        # a cap of exactly zero admits riskless portfolios only
        what = f"{case} gamma={gm} cap^2=0"
        ctx.state(); ctx.step()
        try:
            res = o.solve_gamma_variant(gm, 0.0)
        except Exception:
            ctx.out("raised")
        else:
            w = norm_ok(res, what)
            ctx.check(np.linalg.norm(L.T @ w) <= 3e-6 + 50 * jit and ref.violation(w, rl) <= 3e-6, lambda: f"{what}: {w.tolist()} has radius {np.linalg.norm(L.T @ w)}")
        for fr in (-0.2, 0.1, 0.5, 1.3):
            cap = rmin + fr * (max(rmax, rmin + 0.02) - rmin)
            what = f"{case} gamma={gm} cap^2={cap * cap:.6g}"
            if cap <= 0:
                continue
            ctx.state(); ctx.step()
            try:
                res = o.solve_gamma_variant(gm, cap * cap)
            except Exception as exc:
                ctx.out("raised")
                if fr > 0:
                    ctx.refused(exc, what)
                continue
            if fr < 0 and jit == 0:
                ctx.fail(f"{what}: cap below smallest attainable radius {rmin} but returned {res.weights.tolist()}")
                continue
            w = norm_ok(res, what)
            v = ref.violation(w, rl)
            ctx.check(v <= 3e-6, lambda: f"{what}: {w.tolist()} infeasible by {v:.2e}")
            rad = float(np.linalg.norm(L.T @ w))
            ctx.check(rad <= cap + 3e-6, lambda: f"{what}: radius {rad} above cap {cap}")
            if fr > 0:
                f = val(w, gm)
                low, up = ref.norm_min(mu, L, gm, n, rl, w0, pc, cap=cap, seeds=[w], goal=f - 8e-6 - 2 * jit)
                ctx.check(low is not None and f <= low + 1e-5 + 3 * jit, lambda: f"{what}: objective {f:.9g} above the optimum {low:.9g}")
    ctx.out("ok")


def gen_fac(tier):
    for n in (2, 3):
        for c in data.CONS[n]:
            if not bounded(c):
                continue
            for cov in data.COV[n]:
                if cov in ("sing", "dup", "cash"):
                    continue
                for mu in ("up", "mix", "neg"):
                    for src in ("moments", "posterior", "scen"):
                        for k in ("none", "mid"):
                            for grid in ("lin3", "list", "one", "rev"):
                                if tier == "quick" and (k == "mid") != (grid == "list") and src != "moments":
                                    continue
                                yield [n, c, cov, mu, src, k, grid]


def run_fac(case, ctx):
    n, c, cov, mun, src, kind, grid = case
    spec, S, mu = setup(n, c, cov, mun, "annual")
    rl = ref.rules(n, spec)
    w0, pc = cost(n, kind, float(np.abs(mu).max()))
    tc = None if w0 is None else TransactionCosts(initial_weights=w0, proportional_costs=pc)
    names = E.NAMES[:n]
    kw = dict(constraints=Constraints(**spec), costs=tc)
    R = p = None
    retmu, ret_cov = mu, None
    if src == "moments":
        W = E.wrapper_moments(n, S, mu, True, **kw)
        U = S
    elif src == "scen":
        R = np.array(data.SCEN[n]["A"], float) * 0.01
        p = np.arange(1.0, len(R) + 1); p /= p.sum()
        R = np.vstack([R, -R[::-1] + 0.01]); p = np.concatenate([p, p]) / 2
        W = E.wrapper_scen(n, R, p, True, **kw)
        mu = retmu = p @ R
        U = (R - mu).T @ np.diag(p) @ (R - mu)
    else:
        from pyvallocation.bayesian import RobustBayesPosterior
        from pyvallocation.portfolioapi import PortfolioWrapper
        # posterior via the public constructor: prior strength 4, sample of 20
        post = RobustBayesPosterior.from_niw(
            prior_mu=pd.Series(mu, index=names), prior_sigma=pd.DataFrame(S * 0.5, index=names, columns=names), t0=4, nu0=6,
            sample_mu=pd.Series(mu * 1.5, index=names), sample_sigma=pd.DataFrame(S, index=names, columns=names), n_obs=20)
        W = PortfolioWrapper.from_robust_posterior(post, **kw)
        mu = np.asarray(post.mu, float)
        U = np.asarray(post.s_mu, float)
        Sc = np.asarray(post.sigma, float)
        # moments of exp(X)-1 for X ~ N(mu, Sc)
        e = np.exp(mu + np.diag(Sc) / 2)
        retmu = e - 1
        ret_cov = Sc
    L = root(U)
    lam_in = {"lin3": [0.0, 0.75, 1.5], "list": [2.0, 0.25, 1.0], "one": [0.5], "rev": [3.0, 1.0, 0.0]}[grid]
    ctx.state(); ctx.step()
    what = str(case)
    if grid == "lin3":
        f = W.robust_lambda_frontier(3, 1.5)
    elif grid == "one":
        f = W.robust_lambda_frontier(1, 0.5)
    else:
        f = W.robust_lambda_frontier(lambdas=lam_in)
    w, ret, risk = np.asarray(f.weights), np.asarray(f.returns), np.asarray(f.risks)
    lams = [md["lambda"] for md in f.metadata]
    ctx.check(sorted(lams) == sorted(lam_in) and w.shape[1] == len(lam_in), f"{what}: penalties {lams}")
    ctx.close(ret, retmu @ w, 1e-10, f"{what}: reported returns")
    ctx.close(risk, np.linalg.norm(L.T @ w, axis=0), 1e-6, f"{what}: reported radii")
    ctx.check(np.all(np.diff(risk) >= -1e-12), f"{what}: radii not sorted {risk}")
    ctx.check(list(f.asset_names) == names, f"{what}: names")
    vol = None
    if R is not None:
        vol = np.sqrt(np.einsum("tj,t->j", ((R - p @ R) @ w) ** 2, p))
        ctx.close(f.alternate_risks.get("CVaR (95%)"), [ref.cvar(R @ w[:, j], p, 0.05) for j in range(w.shape[1])], 1e-9, f"{what}: CVaR overlay")
    elif ret_cov is not None:
        vol = np.sqrt(np.einsum("ij,ik,kj->j", w, ret_cov, w))
    if vol is not None:
        ctx.close(f.alternate_risks.get("Volatility"), vol, 1e-8, f"{what}: volatility overlay")
    for j, lam in enumerate(lams):
        x = w[:, j]
        v = ref.violation(x, rl)
        ctx.check(v <= 3e-6, lambda: f"{what}: column {j} infeasible by {v:.2e}")
        val = float(-mu @ x + lam * np.linalg.norm(L.T @ x) + (0 if pc is None else pc @ np.abs(x - w0)))
        low, up = ref.norm_min(mu, L, lam, n, rl, w0, pc, seeds=[x], goal=val - 2e-6 * (1 + lam))
        ctx.check(val <= low + 3e-6 * (1 + lam), lambda: f"{what}: column {j} (lambda {lam}) objective {val:.9g} above optimum {low:.9g}")
    # capped single portfolio
    if grid == "list":
        rmin, _ = ref.norm_min(np.zeros(n), L, 1.0, n, rl)
        for fr in (1.05, 1.5, 4.0):
            cap = rmin * fr
            ctx.state(); ctx.step()
            s, r1, k1 = W.solve_robust_gamma_portfolio(0.3, cap * cap)
            x = np.asarray(s, float)
            ctx.check(list(s.index) == names, f"{what}: capped labels")
            ctx.close(k1, float(x @ U @ x), 2e-6, f"{what}: capped squared radius")
            ctx.check(k1 <= cap * cap * (1 + 1e-9) and float(x @ U @ x) <= cap * cap + 1e-6, f"{what}: cap exceeded")
            val = float(-mu @ x + 0.3 * np.linalg.norm(L.T @ x) + (0 if pc is None else pc @ np.abs(x - w0)))
            low, up = ref.norm_min(mu, L, 0.3, n, rl, w0, pc, cap=cap, seeds=[x], goal=val - 8e-6)
            ctx.check(val <= low + 1e-5, lambda: f"{what}: capped objective {val:.9g} above optimum {low:.9g}")
    ctx.out(f"m={w.shape[1]}")


FAMILIES = [
    Family("low", gen_low, run_low, "all constraint sets x uncertainty matrices (incl. singular) x means x costs; 6 penalties, 8 penalty/cap pairs; cutting-plane optimum"),
    Family("facade", gen_fac, run_fac, "facade frontiers from moments, scenarios and Bayesian posteriors: order, metadata, reported numbers, every column optimal"),
]
