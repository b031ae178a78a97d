"""C24: ensembles against exact averages, exact fold-wise quadratic programmes and independent evaluation."""
import itertools
import numpy as np
import pandas as pd
from scipy.optimize import linprog
from mc.core import Family
from pyvallocation import ensembles as en
from pyvallocation.moments import estimate_moments
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioFrontier, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints
from pyvallocation.utils.projection import log2simple, project_mean_covariance

LEVEL = "model_checking"
RULE = "case = one sample matrix / frontier set / specification set / reuse history; every weight vector, fold count, selection and container is explored inside"
ASSUMPTIONS = ["where several ensemble weightings are exactly optimal, any of them is accepted",
               "stacking optimum compared to 1e-6 in objective and 2e-4 in exposures (interior-point accuracy)",
               "specifications built from estimated moments carry the documented 1e-10 diagonal ridge"]
NM = ["zeta", "alpha", "mid", "beta"]
nan, inf = float("nan"), float("inf")
COLS = {2: [(0.0, 1.0), (0.25, 0.75), (0.5, 0.5), (1.0, 0.0), (1.5, -0.5)],
        3: [(0.0, 0.25, 0.75), (0.5, 0.5, 0.0), (1.0, 0.0, 0.0), (0.25, 0.25, 0.5), (0.75, -0.25, 0.5)]}
WTS = [None, "one", "ramp", "first", "last", "tiny", "big"]


def wvec(kind, k):
    if kind == "one":
        return np.ones(k)
    if kind == "ramp":
        return np.arange(1.0, k + 1)
    if kind == "first":
        return np.eye(k)[0] * 3
    if kind == "last":
        return np.eye(k)[-1]
    if kind == "tiny":
        return np.arange(1.0, k + 1) * 1e-12
    if kind == "big":
        return np.arange(k, 0, -1.0) * 1e12
    raise KeyError(kind)


# ---------------------------------------------------------------- averages
def gen_avg(tier):
    for n in (2, 3):
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for cols in itertools.product(range(len(COLS[n])), repeat=k):
                yield [n, list(cols)]


def run_avg(case, ctx):
    n, cols = case
    X = np.array([COLS[n][c] for c in cols]).T
    k = len(cols)
    names, snames = NM[:n], ["s3", "s1", "s2", "s0"][:k]
    forms = [("array", X), ("nested list", X.tolist()), ("frame", pd.DataFrame(X, index=names, columns=snames)), ("int frame", pd.DataFrame(X, index=names))]
    if k == 1:
        forms += [("vector", X[:, 0]), ("series", pd.Series(X[:, 0], index=names, name="s3"))]
    for wk in WTS:
        raw = None if wk is None else wvec(wk, k)
        w = np.full(k, 1.0 / k) if wk is None else raw / raw.sum()
        want = X @ w
        for fn, S in forms:
            variants = [raw] if raw is None else [raw, list(raw), tuple(raw)]
            if raw is not None and fn in ("frame", "series"):
                variants += [pd.Series(raw, index=snames)] + [pd.Series(raw, index=snames).iloc[list(o)] for o in itertools.permutations(range(k))]
            for v in variants:
                before = S.copy() if hasattr(S, "copy") else S
                keep = None if v is None else (v.copy() if hasattr(v, "copy") else v)
                got = en.average_exposures(S, v)
                ctx.step(); ctx.state()
                what = f"{case} {fn} {wk} {type(v).__name__}"
                ctx.close(got, want, 1e-12, f"{what}: average")
                if fn in ("frame", "int frame", "series"):
                    ctx.check(isinstance(got, pd.Series) and list(got.index) == names, f"{what}: labels lost")
                else:
                    ctx.check(isinstance(got, np.ndarray), f"{what}: got {type(got)}")
                ctx.check(np.array_equal(np.asarray(S), np.asarray(before)) and (v is None or np.array_equal(np.asarray(v), np.asarray(keep))), f"{what}: input changed")
                lo, hi = X.min(axis=1), X.max(axis=1)
                g = np.asarray(got, float)
                ctx.check(np.all(g >= lo - 1e-12) and np.all(g <= hi + 1e-12), f"{what}: outside the range of the samples")
    F = pd.DataFrame(X, index=names, columns=snames)
    bad = {"short": np.ones(k + 1), "long": np.ones(max(k - 1, 0)) if k > 1 else np.ones(3), "zero": np.zeros(k), "nan": np.r_[nan, np.ones(k - 1)], "inf": np.r_[inf, np.ones(k - 1)],
           "negative": np.r_[-1.0, np.full(k - 1, 3.0)] if k > 1 else np.array([-1.0]), "renamed": pd.Series(np.ones(k), index=["zz"] + snames[1:]),
           "extra": pd.Series(np.ones(k + 1), index=snames + ["zz"]), "missing": pd.Series(np.ones(k - 1), index=snames[1:])}
    for b, v in bad.items():
        ctx.raises(lambda: en.average_exposures(F, v), Exception, f"{case}: {b} weights")
    ctx.raises(lambda: en.average_exposures(np.zeros((n, 0))), Exception, f"{case}: no samples")
    ctx.out(f"{k} samples")


# ---------------------------------------------------------------- stacking
def folds_of(k, L):
    s = k // L
    return [list(range(i * s, (i + 1) * s)) for i in range(L - 1)] + [list(range((L - 1) * s, k))]


def qp_of(X, L):
    """Quadratic form of sum_f || X (u masked outside f) - mean of fold f ||^2."""
    k = X.shape[1]
    Q, c, d = np.zeros((k, k)), np.zeros(k), 0.0
    for f in folds_of(k, L):
        M = X.copy()
        M[:, f] = 0.0
        t = X[:, f].mean(axis=1)
        Q += M.T @ M
        c += M.T @ t
        d += t @ t
    return Q, c, d


def solve_exact(Q, c):
    """min u'Qu - 2c'u on the simplex by enumerating supports."""
    k = len(c)
    best = (inf, None)
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            S = list(S)
            K = np.block([[2 * Q[np.ix_(S, S)], np.ones((r, 1))], [np.ones((1, r)), np.zeros((1, 1))]])
            rhs = np.r_[2 * c[S], 1.0]
            z, *_ = np.linalg.lstsq(K, rhs, rcond=None)
            if np.abs(K @ z - rhs).max() > 1e-9 or z[:r].min() < -1e-9:
                continue
            u = np.zeros(k)
            u[S] = np.clip(z[:r], 0, None)
            u /= u.sum()
            v = u @ Q @ u - 2 * c @ u
            if v < best[0] - 1e-13:
                best = (v, u)
    return best


def distance_to_optimal(X, Q, c, u0, w):
    """Smallest max-norm distance from w to { X u : u optimal }."""
    n, k = X.shape
    A_eq = np.vstack([Q, c, np.ones(k)])
    b_eq = np.r_[Q @ u0, c @ u0, 1.0]
    A_ub = np.vstack([np.c_[X, -np.ones(n)], np.c_[-X, -np.ones(n)]])
    b_ub = np.r_[w, -w]
    # the optimal face is described up to rounding
    tol = 1e-9
    A_ub = np.vstack([A_ub, np.c_[A_eq, np.zeros(len(A_eq))], np.c_[-A_eq, np.zeros(len(A_eq))]])
    b_ub = np.r_[b_ub, b_eq + tol, -b_eq + tol]
    r = linprog(np.r_[np.zeros(k), 1.0], A_ub=A_ub, b_ub=b_ub, bounds=[(0, None)] * (k + 1), method="highs")
    return r.fun if r.status == 0 else inf


def w_(x):
    return np.asarray(x, float)


def best_giving(X, Q, c, w):
    """min u'Qu - 2c'u on the simplex subject to X u = w (to 1e-5), by enumerating supports."""
    n, k = X.shape
    A, b = np.vstack([X, np.ones(k)]), np.r_[w, 1.0]
    best = inf
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            S = list(S)
            K = np.block([[2 * Q[np.ix_(S, S)], A[:, S].T], [A[:, S], np.zeros((n + 1, n + 1))]])
            rhs = np.r_[2 * c[S], b]
            z, *_ = np.linalg.lstsq(K, rhs, rcond=None)
            u = z[:r]
            if np.abs(A[:, S] @ u - b).max() > 1e-5 or u.min() < -1e-5:
                continue
            best = min(best, u @ Q[np.ix_(S, S)] @ u - 2 * c[S] @ u)
    return best


def stacking_ok(ctx, X, L, got, what, tol=2e-4):
    Q, c, _ = qp_of(X, L)
    v, u0 = solve_exact(Q, c)
    d = distance_to_optimal(X, Q, c, u0, np.asarray(got, float))
    if d > tol:  # flat objective: the best combination giving these exposures must be as good as the optimum
        best = best_giving(X, Q, c, np.asarray(got, float))
        ctx.check(best <= v + 5e-6, lambda: f"{what}: stacked {np.round(w_(got), 6)} is {d:.2e} away from the exact optimum {np.round(X @ u0, 6)} (objective {best} vs {v})")
    else:
        ctx.check(True, what)


def gen_stack(tier):
    for n in (2, 3):
        for k in (2, 3, 4, 5):
            C = range(len(COLS[n]))
            if k <= 3:
                combos = itertools.product(C, repeat=k)
            elif k == 4:
                combos = itertools.product(C, repeat=k) if tier != "quick" else (x for i, x in enumerate(itertools.product(C, repeat=k)) if i % 3 == 1)
            else:
                combos = (x for i, x in enumerate(itertools.product(C, repeat=k)) if i % (17 if tier == "quick" else 2) == 1)
            for cols in combos:
                yield [n, list(cols)]


def run_stack(case, ctx):
    n, cols = case
    X = np.array([COLS[n][c] for c in cols]).T
    k = len(cols)
    names = NM[:n]
    for L in range(2, k + 1):
        first = None
        for fn, S in (("array", X), ("frame", pd.DataFrame(X, index=names)), ("portfolios", [pd.Series(X[:, j], index=names) for j in range(k)])):
            what = f"stack {case} L={L} {fn}"
            ctx.step(); ctx.state()
            keep = np.asarray(S, dtype=float).copy() if fn != "portfolios" else None
            try:
                got = en.stack_portfolios(S, L=L) if fn == "portfolios" else en.exposure_stacking(S, L=L)
            except Exception as exc:
                ctx.refused(exc, what)
                continue
            if keep is not None:
                ctx.check(np.array_equal(np.asarray(S, dtype=float), keep), f"{what}: input changed")
            if fn != "array":
                ctx.check(isinstance(got, pd.Series) and list(got.index) == names, f"{what}: labels lost")
            g = np.asarray(got, float)
            if first is None:
                stacking_ok(ctx, X, L, g, what)
                first = g
                for s in (1e-3, 1e4):   # small exposures (spread over many assets) and money amounts
                    ctx.step()
                    try:
                        gs = np.asarray(en.exposure_stacking(X * s, L=L), float) / s
                    except Exception as exc:
                        ctx.refused(exc, f"{what} scaled by {s}")
                        continue
                    if np.abs(gs - g).max() > 1e-5:
                        stacking_ok(ctx, X, L, gs, f"{what} scaled by {s}")
            else:
                ctx.close(g, first, 1e-9, f"{what}: same samples, other container")
            lo, hi = X.min(axis=1), X.max(axis=1)
            ctx.check(np.all(g >= lo - 1e-7) and np.all(g <= hi + 1e-7) and abs(g.sum() - 1) < 1e-7, lambda: f"{what}: {g} leaves the hull of the samples")
    for L in (0, 1, -1, k + 1):
        ctx.raises(lambda: en.exposure_stacking(X, L=L), Exception, f"stack {case} L={L}")
    ctx.out(f"{k} samples")


# ---------------------------------------------------------------- frontiers and selections
def frontier(n, seed, M, labelled=True, alt=True, prime="Volatility"):
    W = np.array([COLS[n][(seed + 2 * j + j // 2) % len(COLS[n])] for j in range(M)]).T
    R = np.array([0.02, 0.05, 0.01, 0.07, 0.03])[[(seed + j) % 5 for j in range(M)]]
    K = np.array([0.2, 0.1, 0.4, 0.3, 0.15])[[(2 * seed + j) % 5 for j in range(M)]]
    A = {"CVaR" if prime == "Volatility" else "Volatility": np.array([0.15, 0.35, 0.05, 0.25, 0.45])[[(seed + 3 * j) % 5 for j in range(M)]]} if alt else {}
    return PortfolioFrontier(weights=W, returns=R, risks=K, risk_measure=prime, asset_names=NM[:n] if labelled else None, alternate_risks=A)


def gen_front(tier):
    for n in (2, 3):
        for seeds in itertools.product(range(5), repeat=2):
            for Ms in ((1, 1), (2, 3), (4, 2), (3, 4)):
                yield [n, list(seeds), list(Ms)]
        for seeds in itertools.product(range(5 if tier != "quick" else 3), repeat=3):
            yield [n, list(seeds), [2, 3, 2]]


def run_front(case, ctx):
    n, seeds, Ms = case
    for labelled in (True, False):
        F = [frontier(n, s, m, labelled) for s, m in zip(seeds, Ms)]
        names = NM[:n] if labelled else list(range(n))
        snap = [(f.weights.copy(), f.returns.copy(), f.risks.copy()) for f in F]
        sels = [None] + list(itertools.product(*[range(m) for m in Ms])) + [[-1] * len(Ms), [-m if i else -1 for i, m in enumerate(Ms)]]
        for sel in sels:
            cols = [int(np.argmin(f.risks)) for f in F] if sel is None else list(sel)
            X = np.column_stack([f.weights[:, c] for f, c in zip(F, cols)])
            arg = None if sel is None else [[c] for c in sel]
            for wk in (None, "ramp", "first"):
                raw = None if wk is None else wvec(wk, len(F))
                w = np.full(len(F), 1 / len(F)) if raw is None else raw / raw.sum()
                ctx.step(); ctx.state()
                got = en.average_frontiers(F, arg, ensemble_weights=raw)
                ctx.close(got, X @ w, 1e-12, f"{case} average_frontiers sel={sel} w={wk}")
                ctx.check(isinstance(got, pd.Series) and list(got.index) == names, f"{case}: labels {getattr(got, 'index', None)}")
            if sel is None or sum(sel) % 2 == 0:
                for L in range(2, len(F) + 1):
                    ctx.step(); ctx.state()
                    got = en.exposure_stack_frontiers(F, L, arg)
                    stacking_ok(ctx, X, L, got, f"{case} exposure_stack_frontiers L={L} sel={sel}")
                    ctx.check(list(got.index) == names, f"{case}: stacked labels {list(got.index)}")
                    mixed = [F[0]] + [pd.Series(X[:, j], index=NM[:n]) if labelled else X[:, j] for j in range(1, len(F))]
                    got2 = en.stack_portfolios(mixed, selections=None if arg is None else [arg[0]] + [None] * (len(F) - 1), L=L)
                    ctx.close(got2, got, 1e-9, f"{case} stack_portfolios of a frontier and portfolios L={L} sel={sel}")
        for q in (0, 0.25, 0.5, 0.8, 1.0, 50, 100):
            for lab in (None, "CVaR", "Volatility"):
                got = en.risk_percentile_selections(F, q, risk_label=lab)
                ctx.step(); ctx.state()
                ctx.check(got == [[f.index_at_risk_percentile(q, risk_label=lab)] for f in F], f"{case}: percentile selections {got}")
        for f, s in zip(F, snap):
            ctx.check(all(np.array_equal(a, b) for a, b in zip((f.weights, f.returns, f.risks), s)), f"{case}: frontier changed")
        ctx.raises(lambda: en.average_frontiers(F, [[0, 0]] + [[0]] * (len(F) - 1)), Exception, f"{case}: two columns of one frontier")
        ctx.raises(lambda: en.average_frontiers(F, [[0]] * (len(F) + 1)), Exception, f"{case}: too many selections")
        ctx.raises(lambda: en.average_frontiers([]), Exception, f"{case}: no frontier")
        ctx.raises(lambda: en.average_frontiers(F, [[99]] + [[0]] * (len(F) - 1)), Exception, f"{case}: column out of range")
        ctx.raises(lambda: en.average_frontiers(F, ensemble_weights=[1.0] * (len(F) + 1)), Exception, f"{case}: too many weights")
        ctx.raises(lambda: en.average_frontiers(F, ensemble_weights=[-1.0] + [2.0] * (len(F) - 1)), Exception, f"{case}: negative weight")
    ctx.out(f"{len(F)} frontiers")


# ---------------------------------------------------------------- assembled ensembles with every selector
def selectors():
    """(selector, kwargs, admissible columns of a frontier)"""
    out = []

    def arg(v, best):
        return [j for j in range(len(v)) if v[j] == best]

    for rf in (None, 0.0, 0.015, 0.06, -0.03, -0.3, -5.0):
        kw = {} if rf is None else {"risk_free_rate": rf}

        def tang(f, rf=rf or 0.0):
            s = (f.returns - rf) / f.risks
            return [j for j in range(len(s)) if s[j] >= s.max() - 1e-12]
        for nm in ("tangency", "max_sharpe", "Sharpe"):
            out.append((nm, kw, tang))
    for lab in (None, "CVaR", "Volatility"):
        kw = {} if lab is None else {"risk_label": lab}

        def rk(f, lab=lab):
            return f.risks if lab in (None, f.risk_measure) else f.alternate_risks[lab]
        for nm in ("min_risk", "minimum_risk"):
            out.append((nm, kw, lambda f, rk=rk: arg(rk(f), rk(f).min())))
        for t in (0.22, 0.4, 0.5):
            out.append(("risk_target", dict(kw, max_risk=t), lambda f, rk=rk, t=t: None if rk(f).min() > t else arg(np.where(rk(f) <= t, f.returns, -9), f.returns[rk(f) <= t].max())))
            out.append(("max_return_subject_to_risk", dict(kw, max_risk=t), out[-1][2]))
            out.append(("risk_match", dict(kw, target_risk=t), lambda f, rk=rk, t=t: [j for j in range(len(f.risks)) if abs(rk(f)[j] - t) <= np.abs(rk(f) - t).min() + 1e-12]))
            out.append(("risk_nearest", dict(kw, target_risk=t), out[-1][2]))
        for q in (0.0, 0.3, 1.0, 75):
            def pct(f, rk=rk, q=q):
                M = len(f.risks)
                g = np.arange(M) / max(M - 1, 1)
                qq = q / 100 if q > 1 else q
                v = np.sort(rk(f))
                ok = {v[i] for i in range(M) if abs(g[i] - qq) <= np.abs(g - qq).min() + 1e-12}
                return [j for j in range(M) if rk(f)[j] in ok]
            out.append(("risk_percentile", dict(kw, percentile=q), pct))
            out.append(("percentile", dict(kw, percentile=q), pct))
    for nm in ("max_return", "maximum_return"):
        out.append((nm, {}, lambda f: arg(f.returns, f.returns.max())))
    for c in (0, -1):
        out.append(("column", {"index": c}, lambda f, c=c: [c % len(f.returns)]))
    out.append(((lambda f, **k: f.weights[:, 0]), {}, lambda f: [0]))
    out.append(((lambda f, **k: f.at_percentile(1.0)), {}, lambda f: arg(f.risks, f.risks.max())))
    out.append(((lambda f, j=0: f.to_frame().iloc[:, j]), {"j": -1}, lambda f: [len(f.returns) - 1]))
    out.append(((lambda f: list(f.weights[:, -1])), {}, lambda f: [len(f.returns) - 1]))
    return out


SEL = selectors()


def gen_asm(tier):
    S = len(SEL)
    for n in (2, 3):
        for i in range(S):
            for j in range(S) if tier != "quick" else ((7 * i + 3) % S, (11 * i + 1) % S):
                yield [n, [i, j], (i + j) % 5]
        for i in range(0, S, 1 if tier != "quick" else 5):
            yield [n, [i, (3 * i + 1) % S, (5 * i + 2) % S], i % 5]
        for i in range(0, S, 1 if tier != "quick" else 9):
            for k in (4, 5):
                yield [n, [(i * q + 2 * q + i) % S for q in range(1, k + 1)], i % 5]
        yield [n, [0], 2]


def run_asm(case, ctx):
    n, picks, seed = case
    Ms = [3, 2, 4, 2, 3]
    F = [frontier(n, seed + q, Ms[q], True, prime="CVaR" if q % 2 else "Volatility") for q in range(len(picks))]
    specs, allowed = [], []
    D = AssetsDistribution(mu=np.array([0.01, 0.02, 0.03][:n]), cov=np.eye(n), asset_names=NM[:n])
    names = ["second", "first", "third", "zeta", "beta"][: len(picks)]
    for q, s in enumerate(picks):
        sel, kw, adm = SEL[s]
        kw = dict(kw)
        specs.append(en.make_portfolio_spec(names[q], distribution=D, optimiser=lambda w, q=q: F[q], selector=sel, selector_kwargs=kw, frontier_selection=[(q + seed) % Ms[q]] if q % 2 == 0 else None,
                                            metadata={"tag": q}))
        ctx.check(kw == dict(SEL[s][1]), f"{case}: selector arguments of the caller changed")
        allowed.append(adm(F[q]))
    if any(a is None for a in allowed):
        ctx.raises(lambda: en.assemble_portfolio_ensemble(specs, ensemble="average"), Exception, f"{case}: unattainable risk target")
        ctx.out("unattainable")
        return
    k = len(picks)
    fcols = [(q + seed) % Ms[q] if q % 2 == 0 else int(np.argmin(F[q].risks)) for q in range(k)]
    XF = np.column_stack([F[q].weights[:, fcols[q]] for q in range(k)])
    for comb in ("selected", "frontier", "Selected"):
        for ens in ("average", "stack", ("average", "stack"), ("stack",), None, "none", "", " Average ", ()):
            wants = () if ens in (None, "none", "", ()) else ((ens,) if isinstance(ens, str) else ens)
            wants = tuple(x.strip().lower() for x in wants)
            if (k == 1 and "stack" in wants) or (comb == "Selected" and ens != "average") or (ens == ("stack",) and comb == "frontier"):
                continue
            for wk in (None, "ramp", "series") if "average" in wants else (None,):
                for folds in ((None, 2) if k == 3 else (None, 2, 4) if k == 5 else (None,)) if "stack" in wants else (None,):
                    raw = None if wk is None else wvec("ramp", k)
                    arg = pd.Series(raw, index=names).iloc[::-1] if wk == "series" else raw
                    what = f"{case} combine={comb} ensemble={ens} weights={wk} folds={folds}"
                    ctx.step(); ctx.state()
                    r = en.assemble_portfolio_ensemble(specs, ensemble=ens, combine=comb, stack_folds=folds, ensemble_weights=arg)
                    if not ctx.check(list(r.frontiers) == names and all(r.frontiers[nm] is F[q] or np.array_equal(r.frontiers[nm].weights, F[q].weights) for q, nm in enumerate(names)), f"{what}: frontiers"):
                        continue
                    ctx.check(list(r.selections.columns) == names and list(r.selections.index) == NM[:n], f"{what}: selection labels {r.selections}")
                    for q in range(k):
                        v = r.selections.iloc[:, q].to_numpy()
                        ctx.check(any(np.array_equal(v, F[q].weights[:, c]) for c in allowed[q]), lambda: f"{what}: spec {q} selector {SEL[picks[q]][0]} {SEL[picks[q]][1]} chose {v}, admissible columns {allowed[q]}")
                        ctx.check(r.metadata[names[q]].get("tag") == q, f"{what}: metadata of spec {q}")
                        r.metadata[names[q]]["tag"] = "changed by the reader of the result"
                    ctx.check(set(r.ensembles) == set(wants), f"{what}: ensembles {list(r.ensembles)}")
                    X = r.selections.to_numpy() if comb.lower() == "selected" else XF
                    w = np.full(k, 1 / k) if raw is None else raw / raw.sum()
                    if "average" in wants:
                        ctx.close(r.average, X @ w, 1e-12, f"{what}: average")
                        ctx.check(list(r.average.index) == NM[:n] and r.get("average") is r.average, f"{what}: average labels")
                    else:
                        ctx.check(r.average is None and r.get("average", 5) == 5, f"{what}: average not requested")
                    if "stack" in wants:
                        stacking_ok(ctx, X, min(3, k) if folds is None else folds, r.stacked, f"{what}: stack")
                        ctx.check(list(r.stacked.index) == NM[:n], f"{what}: stack labels")
                    else:
                        ctx.check(r.stacked is None, f"{what}: stack not requested")
    ctx.raises(lambda: en.assemble_portfolio_ensemble([]), Exception, f"{case}: no specs")
    ctx.raises(lambda: en.assemble_portfolio_ensemble(specs, ensemble="median"), Exception, f"{case}: unknown ensemble")
    ctx.raises(lambda: en.assemble_portfolio_ensemble(specs, combine="other"), Exception, f"{case}: unknown combination")
    ctx.raises(lambda: en.assemble_portfolio_ensemble(specs, ensemble="average", ensemble_weights=np.ones(k + 1)), Exception, f"{case}: too many weights")
    ctx.raises(lambda: en.assemble_portfolio_ensemble(specs + specs[:1], ensemble="average"), Exception, f"{case}: same spec twice")
    ctx.out(f"{k} specs")


# ---------------------------------------------------------------- specifications = independent evaluation, in any history
_r = np.array([[1, -2, 3], [0, 1, -1], [-2, 1, 0], [2, 2, -1], [1, 0, 2], [-1, 1, 1], [3, -1, -2], [0, 2, 1], [1, 1, -3], [-2, 0, 2], [2, -1, 1], [0, -3, 1]], float) * 0.01
RET = pd.DataFrame(_r + np.array([0.004, 0.002, 0.003]), columns=NM[:3], index=pd.date_range("2021-01-01", periods=12))
PROB = pd.Series(np.arange(1.0, 13) / 78, index=RET.index)
CONS = dict(bounds=(0.05, 0.8))


def moments_wrapper(p=None, est=("sample", "sample"), data_=None, proj=None, cons=None):
    X = RET if data_ is None else data_
    m, S = estimate_moments(X, p, mean_estimator=est[0], cov_estimator=est[1])
    if proj:
        m, S = proj(m, S)
    S = pd.DataFrame(np.asarray(S) + 1e-10 * np.eye(3), index=NM[:3], columns=NM[:3])
    w = PortfolioWrapper.from_moments(m, S, constraints=cons or {})
    return w


def scen_wrapper(p=None, data_=None, cons=None):
    return PortfolioWrapper.from_scenarios(RET if data_ is None else data_, probabilities=p, constraints=cons or {})


ROB = "Estimation Risk (||\\Sigma'^1/^2w||_2)"


def spec_menu():
    """name -> (spec builder, independent evaluation of the frontier and selected portfolio)"""
    mk = en.make_portfolio_spec
    M = {}
    M["mv"] = (lambda: mk("mv", returns=RET, optimiser_kwargs=dict(num_portfolios=4, constraints=CONS), selector="tangency"),
               lambda: moments_wrapper(cons=CONS).variance_frontier(4), lambda f: f.tangency(0.0)[0])
    M["mvp"] = (lambda: mk("mvp", returns=RET, probabilities=PROB.iloc[::-1], optimiser="mv", optimiser_kwargs=dict(num_portfolios=3, constraints=dict(bounds=(0.0, 0.6))), selector="min_risk", mean_estimator="sample", cov_estimator="sample"),
                lambda: moments_wrapper(p=PROB, cons=dict(bounds=(0.0, 0.6))).variance_frontier(3), lambda f: f.min_risk()[0])
    M["est"] = (lambda: mk("est", returns=RET, mean_estimator="jorion", cov_estimator="ledoit_wolf", optimiser_kwargs=dict(num_portfolios=3, constraints={}), selector="risk_percentile", selector_kwargs=dict(percentile=0.6)),
                lambda: moments_wrapper(est=("jorion", "ledoit_wolf")).variance_frontier(3), lambda f: f.at_percentile(0.6)[0])
    M["cvar"] = (lambda: mk("cvar", returns=RET, probabilities=PROB.to_numpy(), use_scenarios=True, optimiser="cvar", optimiser_kwargs=dict(num_portfolios=3, alpha=0.25, constraints=CONS), selector="max_return"),
                 lambda: scen_wrapper(PROB, cons=CONS).cvar_frontier(3, alpha=0.25), lambda f: f.max_return()[0])
    M["pre"] = (lambda: mk("pre", returns=RET, preprocess=lambda x: 2 * x.iloc[2:], optimiser_kwargs=dict(num_portfolios=3, constraints={}), selector="column", selector_kwargs=dict(index=1)),
                lambda: moments_wrapper(data_=2 * RET.iloc[2:]).variance_frontier(3), lambda f: f.to_frame().iloc[:, 1])
    M["proj"] = (lambda: mk("proj", returns=RET, projection=dict(annualization_factor=4, log_to_simple=True), optimiser_kwargs=dict(num_portfolios=3, constraints={}), selector="tangency", selector_kwargs=dict(risk_free_rate=0.001)),
                 lambda: moments_wrapper(proj=lambda m, S: log2simple(*project_mean_covariance(m, S, annualization_factor=4))).variance_frontier(3), lambda f: f.tangency(0.001)[0])
    M["projs"] = (lambda: mk("projs", returns=RET, projection=dict(annualization_factor=0.25, to_simple=True), optimiser_kwargs=dict(num_portfolios=3, constraints={}), selector="max_return"),
                  lambda: moments_wrapper(proj=lambda m, S: log2simple(*project_mean_covariance(m, S, annualization_factor=0.25))).variance_frontier(3), lambda f: f.max_return()[0])
    M["trans"] = (lambda: mk("trans", returns=RET, projection=dict(transform=lambda m, S: (m * 2, S * 3)), optimiser_kwargs=dict(num_portfolios=2, constraints={}), selector="max_return"),
                  lambda: moments_wrapper(proj=lambda m, S: (m * 2, S * 3)).variance_frontier(2), lambda f: f.max_return()[0])
    M["rrp"] = (lambda: mk("rrp", returns=RET, optimiser="rrp", optimiser_kwargs=dict(num_portfolios=2, constraints={}), selector="min_risk"),
                lambda: moments_wrapper().relaxed_risk_parity_frontier(2), lambda f: f.min_risk()[0])
    M["rob"] = (lambda: mk("rob", distribution=AssetsDistribution(mu=RET.mean(), cov=RET.cov()), optimiser="robust", optimiser_kwargs=dict(lambdas=[0.1, 1.0], constraints={}), selector="min_risk"),
                lambda: PortfolioWrapper.from_moments(RET.mean(), RET.cov()).robust_lambda_frontier(lambdas=[0.1, 1.0]), lambda f: f.min_risk()[0])
    W = lambda: scen_wrapper(PROB, cons=CONS)

    def costly():
        w = PortfolioWrapper.from_moments(RET.mean(), RET.cov(), constraints=CONS, costs=TransactionCosts(initial_weights=np.array([0.2, 0.3, 0.5]), market_impact_costs=np.array([0.05, 0.2, 0.1])))
        return w
    M["wmv"] = (lambda: costly().make_ensemble_spec("wmv", optimiser_kwargs=dict(num_portfolios=3), selector="max_return"), lambda: costly().variance_frontier(3), lambda f: f.max_return()[0])
    M["wcv"] = (lambda: W().make_ensemble_spec("wcv", optimiser="cvar", optimiser_kwargs=dict(num_portfolios=3, alpha=0.3), selector="risk_match", selector_kwargs=dict(target_risk=0.01)),
                lambda: W().cvar_frontier(3, alpha=0.3), lambda f: f.closest_risk(0.01)[0])
    M["wcall"] = (lambda: W().make_ensemble_spec("wcall", optimiser=lambda w, **k: w.variance_frontier(2, **k), selector=lambda f: f.weights[:, 1]), lambda: W().variance_frontier(2), lambda f: f.to_frame().iloc[:, 1])
    # robust frontiers: risk-based selectors work on the volatility overlay unless a measure is named
    RC = pd.DataFrame(np.diag([0.01, 0.04, 0.04]) + 0.002, index=NM[:3], columns=NM[:3])
    rkw = dict(lambdas=[0.0, 0.3, 1.0, 4.0], return_cov=RC, constraints={})
    rob = lambda: PortfolioWrapper.from_moments(RET.mean(), 9 * RET.cov()).robust_lambda_frontier(lambdas=[0.0, 0.3, 1.0, 4.0], return_cov=RC)
    rdist = lambda: AssetsDistribution(mu=RET.mean(), cov=9 * RET.cov())
    for nm, sel, kw, want in (
            ("rob_t", "risk_target", dict(max_risk=0.1085), lambda f: f.at_risk(0.1085, risk_label="Volatility")[0]),
            ("rob_te", "risk_target", dict(max_risk=0.03, risk_label=ROB), lambda f: f.at_risk(0.03)[0]),
            ("rob_m", "risk_match", dict(target_risk=0.109), lambda f: f.closest_risk(0.109, risk_label="Volatility")[0]),
            ("rob_p", "percentile", dict(percentile=0.1), lambda f: f.at_percentile(0.1, risk_label="Volatility")[0]),
            ("rob_s", "tangency", dict(risk_free_rate=0.001), lambda f: f.tangency(0.001)[0]),
            ("rob_n", "tangency", dict(risk_free_rate=-5.0), lambda f: f.tangency(-5.0)[0])):
        M[nm] = (lambda nm=nm, sel=sel, kw=kw: mk(nm, distribution_factory=rdist, optimiser="robust", optimiser_kwargs=dict(rkw), selector=sel, selector_kwargs=dict(kw)), rob, want)
    # constraints as an object, unlabelled data, estimator options, callable optimiser, everything else default
    G = dict(bounds=(0.0, 0.55), group_constraints={"g": ([0, 1], 0.2, 0.7)})
    M["obj"] = (lambda: mk("obj", returns=RET, optimiser_kwargs=dict(num_portfolios=3, constraints=Constraints(**G)), selector="max_return"), lambda: moments_wrapper(cons=Constraints(**G)).variance_frontier(3), lambda f: f.max_return()[0])
    M["objc"] = (lambda: mk("objc", returns=RET, use_scenarios=True, optimiser="cvar", optimiser_kwargs=dict(num_portfolios=3, alpha=0.25, constraints=Constraints(**G)), selector="min_risk"),
                 lambda: scen_wrapper(cons=Constraints(**G)).cvar_frontier(3, alpha=0.25), lambda f: f.min_risk()[0])
    M["kw"] = (lambda: mk("kw", returns=RET, mean_estimator="median_of_means", mean_kwargs=dict(n_blocks=3, random_state=4), cov_estimator="ewma", cov_kwargs=dict(span=5), optimiser_kwargs=dict(num_portfolios=3, constraints={}), selector="tangency"),
               lambda: PortfolioWrapper.from_moments(*kwmom(), constraints={}).variance_frontier(3), lambda f: f.tangency(0.0)[0])
    M["ocall"] = (lambda: mk("ocall", returns=RET, probabilities=PROB, optimiser=lambda w, k: w.variance_frontier(k), optimiser_kwargs=dict(k=3, constraints=CONS), selector=lambda f, q: f.at_percentile(q), selector_kwargs=dict(q=0.5)),
                  lambda: moments_wrapper(p=PROB, cons=CONS).variance_frontier(3), lambda f: f.at_percentile(0.5)[0])
    return M


def kwmom():
    m, S = estimate_moments(RET, None, mean_estimator="median_of_means", cov_estimator="ewma", mean_kwargs=dict(n_blocks=3, random_state=4), cov_kwargs=dict(span=5))
    return m, pd.DataFrame(np.asarray(S) + 1e-10 * np.eye(3), index=NM[:3], columns=NM[:3])


MENU = spec_menu()
CORE = [k for k in MENU if k != "projs"][:12]
_WANT = {}


def want_of(k):
    if k not in _WANT:
        f = MENU[k][1]()
        _WANT[k] = (f, np.asarray(MENU[k][2](f), float))
    return _WANT[k]


def gen_hist(tier):
    for k in MENU:
        yield [[k]]
        if k not in CORE:
            yield [["mv", k], [k, "cvar"], [k]]
    K = CORE
    for a, b in itertools.permutations(K, 2):
        yield [[a, b]]
    trip = list(itertools.permutations(K, 3))
    step = 10 if tier == "quick" else 4
    for i in range(0, len(trip), step):
        yield [list(trip[i])]
    # reuse histories: sequences of subsets
    pairs = list(itertools.permutations(K, 2))
    for i, (a, b) in enumerate(pairs):
        if tier == "quick" and i % 4 != 1:
            continue
        c = K[(i * 5) % len(K)]
        yield [[a, b], [b, a], [a] if c in (a, b) else [c, a], [a, b]]


def run_hist(case, ctx):
    pool = {}
    for subset in case:
        for k in subset:
            if k not in pool:
                pool[k] = MENU[k][0]()
    first = {}
    for subset in case:
        specs = [pool[k] for k in subset]
        ens = ("average", "stack") if len(subset) > 1 else "average"
        ctx.step(); ctx.state()
        r = en.assemble_portfolio_ensemble(specs, ensemble=ens)
        what = f"history {case} at {subset}"
        if not ctx.check(list(r.selections.columns) == subset and list(r.selections.index) == NM[:3], f"{what}: labels {r.selections}"):
            continue
        for k in subset:
            f, sel = want_of(k)
            ctx.close(r.frontiers[k].weights, f.weights, 1e-6, f"{what}: frontier of {k} differs from its independent evaluation")
            ctx.close(r.frontiers[k].returns, f.returns, 1e-7, f"{what}: returns of {k}")
            ctx.close(r.frontiers[k].risks, f.risks, 1e-6, f"{what}: risks of {k}")
            ctx.check(r.frontiers[k].risk_measure == f.risk_measure and list(r.frontiers[k].asset_names) == NM[:3], f"{what}: frontier labels of {k}")
            ctx.close(r.selections[k], sel, 1e-6, f"{what}: selection of {k}")
            if k in first:
                ctx.check(np.array_equal(first[k], r.selections[k].to_numpy()), f"{what}: {k} gave another portfolio when reused")
            first.setdefault(k, r.selections[k].to_numpy().copy())
        X = r.selections.to_numpy()
        ctx.close(r.average, X.mean(axis=1), 1e-12, f"{what}: average")
        ctx.check(abs(r.average.sum() - 1) < 1e-6, f"{what}: budget of the average")
        if len(subset) > 1:
            stacking_ok(ctx, X, min(3, len(subset)), r.stacked, f"{what}: stack")
    ctx.out(f"{len(case)} calls")


FAMILIES = [
    Family("average", gen_avg, run_avg, "all sample matrices of 1-3 (4) columns from 5 portfolios x 7 weight patterns x containers; invalid weights rejected"),
    Family("stack", gen_stack, run_stack, "all sample matrices of 2-3 columns, a regular third/seventeenth of 4/5 columns (all/half when thorough) x every fold count against the exact quadratic programme"),
    Family("frontiers", gen_front, run_front, "pairs and triples of frontiers x every selection x weights x folds; percentile selections"),
    Family("assemble", gen_asm, run_asm, "every built-in and callable selector alone, in pairs and triples of specifications x combination mode x ensemble request x weights x folds"),
    Family("specs", gen_hist, run_hist, "12 kinds of specification (and 9 more alone or paired with two of them) alone, in all ordered pairs and in triples, and reuse histories of four calls, against independent evaluation"),
]
