"""C26: distributions, wrappers, price conversion and weight helpers keep the data they are given."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper
from pyvallocation.utils import projection as pj
from pyvallocation.utils.data_helpers import numpy_weights_to_pandas_series, pandas_to_numpy_returns
from pyvallocation.utils.weights import ensure_samples_matrix, normalize_weights, wrap_exposure_vector

LEVEL = "model_checking"
RULE = "case = data set x which pieces are given x containers; inside a case every label order, option and single-fault invalid variant; stored data are compared entry by entry with what was supplied, computed returns with exact formulas"
ASSUMPTIONS = ["label sets given in different orders may be aligned or rejected, never mixed up", "only complete price tables are converted (the treatment of missing prices is configured by the caller)"]

NM = ["zeta", "alpha", "mid", "beta"]


def cov(n, k=None):
    return np.array(data.COV[n][k or sorted(data.COV[n])[0]], float) / 2500 if n > 1 else np.array([[0.0025]])


def mu(n, k=0):
    ks = sorted(data.MU[n]) if n > 1 else None
    return np.array(data.MU[n][ks[k % len(ks)]], float) / 100 if n > 1 else np.array([[0.01], [-0.02], [0.0]][k % 3])


def scen(n, k):
    if n == 1:
        return np.array([[1], [-2], [3]] if k == 0 else [[2], [0], [-1], [1]], float) / 64
    ks = sorted(data.SCEN[n])
    return np.array(data.SCEN[n][ks[k % len(ks)]], float) / 64


def exact(ctx, got, want, msg):
    g, w = np.asarray(got, float), np.asarray(want, float)
    ctx.check(g.shape == w.shape and np.array_equal(g, w), lambda: f"{msg}: {g.ravel()[:6]} {g.shape} instead of {w.ravel()[:6]} {w.shape}")


def moments(R, p):
    m = np.array([math.fsum(p[t] * R[t, i] for t in range(len(R))) for i in range(R.shape[1])])
    S = np.array([[math.fsum(p[t] * (R[t, i] - m[i]) * (R[t, j] - m[j]) for t in range(len(R))) for j in range(R.shape[1])] for i in range(R.shape[1])])
    return m, S


# ---------------------------------------------------------------- distributions from every combination of pieces
PIECES = [c for r in range(1, 5) for c in itertools.combinations(("mu", "cov", "scen", "prob"), r)]


def gen_dist(tier):
    for n in (1, 2, 3, 4):
        for k in range(3):
            for pieces in PIECES:
                if "prob" in pieces and "scen" not in pieces:
                    continue
                yield [n, k, list(pieces)]


def pieces_of(n, k, pieces, g=None):
    T = len(scen(n, k))
    p = (np.arange(1, T + 1) / (T * (T + 1) / 2)) if g is None else g
    return {q: v for q, v in (("mu", mu(n, k)), ("cov", cov(n)), ("scenarios", scen(n, k)), ("probabilities", p)) if {"scenarios": "scen", "probabilities": "prob"}.get(q, q) in pieces}


def dress(d, n, labels, order=None, porder=None, idx=None):
    """The pieces as labelled pandas objects, assets in ``order``."""
    o = list(range(n)) if order is None else list(order)
    L = [labels[j] for j in o]
    out = {}
    for k, v in d.items():
        if k == "mu":
            out[k] = pd.Series(v[o], index=L)
        elif k == "cov":
            out[k] = pd.DataFrame(v[np.ix_(o, o)], index=L, columns=L)
        elif k == "scenarios":
            out[k] = pd.DataFrame(v[:, o], columns=L, index=idx)
        else:
            po = list(range(len(v))) if porder is None else porder
            out[k] = pd.Series(np.asarray(v)[po], index=None if idx is None else [idx[t] for t in po]) if idx is not None else np.asarray(v)
    return out


def look(ctx, D, d, n, o, names, tag):
    """Everything stored equals everything supplied (in asset order ``o``)."""
    o = list(o)
    ctx.state()
    ctx.check(D.N == n, f"{tag}: N={D.N}")
    ctx.check((None if D.asset_names is None else list(D.asset_names)) == names, lambda: f"{tag}: names {D.asset_names} instead of {names}")
    R = d.get("scenarios")
    if R is not None:
        T = len(R)
        p = np.full(T, 1.0 / T) if "probabilities" not in d else np.asarray(d["probabilities"], float)
        p = p / math.fsum(p)
        ctx.check(D.T == T, f"{tag}: T={D.T}")
        exact(ctx, D.scenarios, R[:, o], f"{tag}: scenarios")
        ctx.close(D.probabilities, p, 1e-14, f"{tag}: probabilities")
        m, S = moments(R, p)
        if "mu" not in d:
            ctx.close(D.mu, m[o], 1e-13, f"{tag}: estimated mean")
        if "cov" not in d:
            ctx.close(D.cov, S[np.ix_(o, o)], 1e-13, f"{tag}: estimated covariance")
    else:
        ctx.check(D.scenarios is None and D.probabilities is None and D.T is None, f"{tag}: scenarios out of nothing")
    if "mu" in d:
        exact(ctx, D.mu, d["mu"][o], f"{tag}: mean")
    if "cov" in d:
        exact(ctx, D.cov, d["cov"][np.ix_(o, o)], f"{tag}: covariance")


def run_dist(case, ctx):
    n, k, pieces = case
    d = pieces_of(n, k, pieces)
    T = len(scen(n, k))
    idx = [f"s{t}" for t in range(T)]
    tag = f"{case}"
    ctx.step()
    look(ctx, AssetsDistribution(**d), d, n, range(n), None, f"{tag} arrays")
    names = NM[:n]
    ctx.step()
    look(ctx, AssetsDistribution(**d, asset_names=list(names)), d, n, range(n), names, f"{tag} arrays with names")
    if "mu" in d:
        for shape in ((n, 1), (1, n)):
            ctx.step()
            D = AssetsDistribution(**{**d, "mu": d["mu"].reshape(shape)})
            exact(ctx, D.mu, d["mu"], f"{tag}: mean given as {shape}")
    labelsets = [names, list(range(5, 5 + n)), [f"{j}" for j in range(n)], [3 - j for j in range(n)]]
    for li, labels in enumerate(labelsets):
        for o in data.perms(n):
            if li and o != data.perms(n)[(li + k) % len(data.perms(n))]:
                continue
            for porder in (None, [(t + 1) % T for t in range(T)], list(range(T))[::-1]):
                if porder is not None and "probabilities" not in d:
                    continue
                L = dress(d, n, labels, o, porder, idx)
                ctx.step()
                look(ctx, AssetsDistribution(**L), d, n, o, [labels[j] for j in o], f"{tag} labels {labels} order {o} probabilities {porder}")
            # one piece labelled, the others plain arrays in the same order
            for q in d:
                if q == "probabilities":
                    continue
                plain = {kk: (v[list(o)] if kk == "mu" else v[np.ix_(o, o)] if kk == "cov" else v[:, list(o)] if kk == "scenarios" else v) for kk, v in d.items()}
                one = {**plain, q: dress(d, n, labels, o)[q]}
                ctx.step()
                look(ctx, AssetsDistribution(**one), d, n, o, [labels[j] for j in o], f"{tag} only {q} labelled, order {o}")
    # different orders in different pieces: aligned or rejected, never mixed
    for o in data.perms(n)[1:]:
        for q in d:
            if q == "probabilities" or len([x for x in d if x != "probabilities"]) < 2:
                continue
            L = {**dress(d, n, names), q: dress(d, n, names, o)[q]}
            ctx.step()
            try:
                D = AssetsDistribution(**L)
            except Exception:  # noqa: BLE001
                ctx.out("mixed order rejected")
                continue
            oo = [names.index(x) for x in D.asset_names]
            look(ctx, D, d, n, oo, [names[j] for j in oo], f"{tag}: {q} in order {o}")
    # rejected: any single fault
    for q, bad, what in faults(d, n, T):
        ctx.step()
        ctx.raises(lambda: AssetsDistribution(**{**d, q: bad}), Exception, f"{tag}: {what} accepted")
        if q == "scenarios" and {"mu", "cov"} & set(d) == set() and "probabilities" not in d:
            ctx.raises(lambda: PortfolioWrapper.from_scenarios(bad), Exception, f"{tag}: {what} accepted by from_scenarios")
    for q in d:
        if q == "probabilities":
            continue
        other = dress(d, n, names[:-1] + ["other"])[q]
        if len([x for x in d if x != "probabilities"]) > 1:
            ctx.raises(lambda: AssetsDistribution(**{**dress(d, n, names), q: other}), Exception, f"{tag}: {q} labelled {list(other.index)} accepted next to {names}")
        ctx.raises(lambda: AssetsDistribution(**{**d, q: other}, asset_names=list(names)), Exception, f"{tag}: {q} with a foreign label accepted for names {names}")
    if "probabilities" in d:
        pl = dress(d, n, names, idx=idx)
        pl["probabilities"] = pd.Series(d["probabilities"], index=idx[:-1] + ["other"])
        ctx.raises(lambda: AssetsDistribution(**pl), Exception, f"{tag}: probabilities with a foreign label accepted")
    ctx.raises(lambda: AssetsDistribution(**d, asset_names=NM[:n] + ["more"]), Exception, f"{tag}: {n + 1} names accepted")
    if n > 1:
        ctx.raises(lambda: AssetsDistribution(**d, asset_names=NM[:n - 1]), Exception, f"{tag}: {n - 1} names accepted")
    ctx.out("+".join(pieces))


def faults(d, n, T):
    for q, v in d.items():
        v = np.asarray(v, float)
        for pos in np.ndindex(v.shape):
            for x in (np.nan, np.inf, -np.inf) if q != "probabilities" else (np.nan, np.inf, -0.25):
                b = v.copy()
                b[pos] = x
                if q == "cov":
                    b[pos[::-1]] = x
                yield q, b, f"{q} with {x} at {pos}"
    if "mu" in d and len(d) > 1 and ("cov" in d or "scenarios" in d):
        yield "mu", np.append(d["mu"], 0.1), "mean of another length"
        if n > 1:
            yield "mu", d["mu"][:-1], "mean of another length"
    if "cov" in d:
        yield "cov", d["cov"][:, :-1] if n > 1 else np.zeros((1, 2)), "non-square covariance"
        yield "cov", d["cov"][0], "one-dimensional covariance"
        if "mu" in d or "scenarios" in d:
            yield "cov", np.eye(n + 1), "covariance of another size"
    if "scenarios" in d:
        yield "scenarios", d["scenarios"].ravel(), "one-dimensional scenarios"
        yield "scenarios", d["scenarios"][None], "three-dimensional scenarios"
        if "mu" in d or "cov" in d:
            yield "scenarios", np.column_stack([d["scenarios"], d["scenarios"][:, 0]]), "scenarios of another width"
    if "probabilities" in d:
        p = np.asarray(d["probabilities"], float)
        yield "probabilities", np.append(p, 0.1), "probabilities of another length"
        yield "probabilities", p[:-1], "probabilities of another length"
        yield "probabilities", p * 0, "probabilities of zero total"
        yield "probabilities", -p, "negative probabilities"


def gen_prob(tier):
    for n in (1, 2, 3):
        for k in range(2):
            for scale in (1.0, 0.5, 3.0, 1e-9, 1e9):
                yield [n, k, scale]


def run_prob(case, ctx):
    """Probabilities of every total are normalised only; zeros stay zeros."""
    n, k, scale = case
    R = scen(n, k)
    T = len(R)
    for g in data.prob_grid(T, 4 if T <= 4 else 3):
        g = np.asarray(g, float)
        for x in (g * scale, list(g * scale), pd.Series(g * scale), (g * scale).reshape(-1, 1)):
            if isinstance(x, np.ndarray) and x.ndim == 2 and T == 1:
                continue
            D = AssetsDistribution(scenarios=R, probabilities=x)
            ctx.step(); ctx.state()
            ctx.close(D.probabilities, g / g.sum(), 1e-14, f"{case}: {g} given as {type(x).__name__}")
            m, S = moments(R, g / g.sum())
            ctx.close(D.mu, m, 1e-13, f"{case}: mean under {g}")
            ctx.close(D.cov, S, 1e-13, f"{case}: covariance under {g}")
            w = PortfolioWrapper.from_scenarios(R, probabilities=x)
            ctx.close(w.dist.probabilities, g / g.sum(), 1e-14, f"{case}: from_scenarios, {g}")
    ctx.out(f"total {scale}")


# ---------------------------------------------------------------- wrappers
def gen_wrap(tier):
    for n in (1, 2, 3, 4):
        covs = sorted(data.COV[n]) if n > 1 else ["one"]
        for ck in covs:
            for k in range(3):
                yield [n, ck, k]


def run_wrap(case, ctx):
    n, ck, k = case
    S = cov(n, ck) if n > 1 else cov(1)
    m, R = mu(n, k), scen(n, k)
    T, names = len(R), NM[:n]
    idx = [f"s{t}" for t in range(T)]
    p = np.arange(1, T + 1) / (T * (T + 1) / 2)
    eig = np.linalg.eigvalsh(S).min()
    lm = np.array([math.exp(m[i] + S[i, i] / 2) - 1 for i in range(n)])
    lS = np.array([[math.exp(m[i] + m[j] + (S[i, i] + S[j, j]) / 2) * math.expm1(S[i, j]) for j in range(n)] for i in range(n)])
    lR = np.array([[math.expm1(x) for x in row] for row in R])
    for o in data.perms(n) + [None]:
        oo = list(range(n)) if o is None else list(o)
        d = dict(mu=m, cov=S, scenarios=R, probabilities=p)
        L = dress(d, n, names, oo, [(t + 1) % T for t in range(T)], idx) if o is not None else d
        nm = None if o is None else [names[j] for j in oo]
        wm = PortfolioWrapper.from_moments(L["mu"], L["cov"])
        ctx.step(4); ctx.state(4)
        tag = f"{case} order {o}"
        exact(ctx, wm.dist.mu, m[oo], f"{tag}: from_moments mean")
        ctx.close(wm.dist.cov, S[np.ix_(oo, oo)], 1e-12 if eig > 1e-12 else 1e-6, f"{tag}: from_moments covariance")
        ctx.check((None if wm.dist.asset_names is None else list(wm.dist.asset_names)) == nm, f"{tag}: names {wm.dist.asset_names}")
        wl = PortfolioWrapper.from_moments(L["mu"], L["cov"], return_type="log")
        ctx.close(wl.dist.mu, lm[oo], 1e-12, f"{tag}: log mean")
        ctx.close(wl.dist.cov, lS[np.ix_(oo, oo)], 1e-12 if eig > 1e-12 else 1e-6, f"{tag}: log covariance")
        ctx.check((None if wl.dist.asset_names is None else list(wl.dist.asset_names)) == nm, f"{tag}: names {wl.dist.asset_names}")
        ws = PortfolioWrapper.from_scenarios(L["scenarios"], probabilities=L["probabilities"])
        look(ctx, ws.dist, dict(scenarios=R, probabilities=p), n, oo, nm, f"{tag}: from_scenarios")
        wc = PortfolioWrapper.from_scenarios(L["scenarios"], probabilities=L["probabilities"], return_type="log")
        ctx.close(wc.dist.scenarios, lR[:, oo], 1e-14, f"{tag}: log scenarios")
        ctx.close(wc.dist.probabilities, p, 1e-14, f"{tag}: log scenario probabilities")
        mm, SS = moments(lR, p)
        ctx.close(wc.dist.mu, mm[oo], 1e-13, f"{tag}: mean of log scenarios")
        ctx.close(wc.dist.cov, SS[np.ix_(oo, oo)], 1e-13, f"{tag}: covariance of log scenarios")
        # posterior
        for h in (1.0, 4.0, 0.5):
            s_mu = S / 9
            sm = s_mu if o is None else pd.DataFrame(s_mu[np.ix_(oo, oo)], index=nm, columns=nm)
            wp = PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=L["mu"], sigma=L["cov"], s_mu=sm), annualization_factor=h)
            ctx.step(); ctx.state()
            ctx.close(wp.dist.mu, (m * h)[oo], 1e-14, f"{tag}: posterior mean x {h}")
            ctx.close(wp.dist.cov, (S * h)[np.ix_(oo, oo)], 1e-12 if eig > 1e-12 else 1e-6, f"{tag}: posterior covariance x {h}")
            ctx.check((None if wp.dist.asset_names is None else list(wp.dist.asset_names)) == nm, f"{tag}: names {wp.dist.asset_names}")
        # a certain invariant: projected scenarios are known
        for t in range(T):
            e = np.eye(T)[t]
            pe = e if o is None else pd.Series(e, index=idx)
            for h in (1, 3):
                wi = PortfolioWrapper.from_invariants(L["scenarios"], horizon=h, n_simulations=3, p=pe, seed=t)
                ctx.step(); ctx.state()
                ctx.close(wi.dist.scenarios, np.tile([math.expm1(h * R[t, j]) for j in oo], (3, 1)), 1e-13, f"{tag}: certain invariant {t}, horizon {h}")
                ctx.check((None if wi.dist.asset_names is None else list(wi.dist.asset_names)) == nm, f"{tag}: names {wi.dist.asset_names}")
    for bad in ("Log", "compound", "", None, "arith"):
        ctx.raises(lambda: PortfolioWrapper.from_moments(m, S, return_type=bad), Exception, f"{case}: return type {bad!r} accepted")
        ctx.raises(lambda: PortfolioWrapper.from_scenarios(R, return_type=bad), Exception, f"{case}: return type {bad!r} accepted")
    for i in range(n):
        for x in (np.nan, np.inf):
            b = m.copy()
            b[i] = x
            ctx.raises(lambda: PortfolioWrapper.from_moments(b, S), Exception, f"{case}: mean {x} accepted")
            ctx.raises(lambda: PortfolioWrapper.from_moments(b, S, return_type="log"), Exception, f"{case}: mean {x} accepted")
            B = S.copy()
            B[i, i] = x
            ctx.raises(lambda: PortfolioWrapper.from_moments(m, B), Exception, f"{case}: covariance {x} accepted")
            C = R.copy()
            C[0, i] = x
            ctx.raises(lambda: PortfolioWrapper.from_scenarios(C, return_type="log"), Exception, f"{case}: scenario {x} accepted")
    ctx.raises(lambda: PortfolioWrapper.from_moments(np.append(m, 0.0), S), Exception, f"{case}: mean of another length accepted")
    ctx.out(f"n={n}")


# ---------------------------------------------------------------- prices
PV = [1.0, 2.0, 5.0]


def gen_price(tier):
    for T, n in ((2, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((4, 2), (3, 3)) if tier == "thorough" else ()):
        for first in itertools.product(PV, repeat=n):
            yield [T, n, list(first)]


def run_price(case, ctx):
    T, n, first = case
    names = NM[:n]
    dates = list(pd.date_range("2024-01-31", periods=T))
    tables = list(itertools.product(PV, repeat=n * (T - 1)))
    if len(tables) > 800:
        tables = tables[::len(tables) // 600 + 1]
    for ti, flat in enumerate(tables):
        P = np.vstack([first, np.reshape(flat, (T - 1, n))])
        want = np.array([[P[t + 1, i] / P[t, i] - 1.0 for i in range(n)] for t in range(T - 1)])
        logw = np.array([[math.log(P[t + 1, i] / P[t, i]) for i in range(n)] for t in range(T - 1)])
        o = list(data.perms(n)[ti % len(data.perms(n))])
        F = pd.DataFrame(P[:, o], columns=[names[j] for j in o], index=dates)
        forms = [("array", P, list(range(n)), None), ("frame", F, o, [names[j] for j in o]), ("int frame", F.astype(int), o, [names[j] for j in o]), ("list", P.tolist(), list(range(n)), None)]
        for fn, x, oo, nm in forms:
            w = PortfolioWrapper.from_prices(x)
            ctx.step(); ctx.state()
            ctx.close(w.dist.scenarios, want[:, oo], 1e-15, f"{case} {flat} {fn}: returns")
            ctx.close(w.dist.probabilities, np.full(T - 1, 1 / (T - 1)), 1e-15, f"{case} {flat} {fn}: probabilities")
            ctx.check((None if w.dist.asset_names is None else list(w.dist.asset_names)) == nm, f"{case} {fn}: names {w.dist.asset_names}")
        D = F.copy()
        D.insert(ti % (n + 1), "when", [str(x.date()) for x in dates])
        D["note"] = "x"
        fill = ("ffill", "bfill", "zero", "drop")[ti % 4]
        for meth, exp in (("simple", want), ("log", logw)):
            kw = dict(return_calculation_method=meth, fill_na_method=fill)
            for tag, got, oo in (("plain", lambda: pandas_to_numpy_returns(F, **kw), o), ("date column", lambda: pandas_to_numpy_returns(D, date_column="when", **kw), o),
                                 ("chosen columns", lambda: pandas_to_numpy_returns(D, price_columns=list(names), **kw), list(range(n))), ("one column", lambda: pandas_to_numpy_returns(D, price_columns=[names[-1]], date_column="when", **kw), [n - 1])):
                ctx.step(); ctx.state()
                ctx.close(got(), exp[:, oo], 1e-15, f"{case} {flat} {meth} {tag} {fill}")
    P = np.vstack([first, np.full((T - 1, n), 2.0)])
    for pos in np.ndindex(P.shape):
        for x in (np.nan, 0.0, -1.0, np.inf, -np.inf):
            B = P.copy()
            B[pos] = x
            for form in (B, pd.DataFrame(B, columns=names)):
                ctx.raises(lambda: PortfolioWrapper.from_prices(form), Exception, f"{case}: price {x} at {pos} accepted ({type(form).__name__})")
    ctx.raises(lambda: PortfolioWrapper.from_prices(P[:1]), Exception, f"{case}: one row accepted")
    ctx.raises(lambda: PortfolioWrapper.from_prices(P[:, 0]), Exception, f"{case}: vector accepted")
    ctx.raises(lambda: PortfolioWrapper.from_prices(pd.DataFrame(P[:1])), Exception, f"{case}: one row accepted")
    F = pd.DataFrame(P, columns=names)
    ctx.raises(lambda: pandas_to_numpy_returns(F, price_columns=["none"]), Exception, f"{case}: unknown column accepted")
    ctx.raises(lambda: pandas_to_numpy_returns(F, date_column="none"), Exception, f"{case}: unknown date column accepted")
    ctx.raises(lambda: pandas_to_numpy_returns(F, return_calculation_method="none"), Exception, f"{case}: unknown method accepted")
    ctx.raises(lambda: pandas_to_numpy_returns(F, fill_na_method="none"), Exception, f"{case}: unknown fill accepted")
    ctx.raises(lambda: pandas_to_numpy_returns(P), Exception, f"{case}: array accepted")
    ctx.raises(lambda: pandas_to_numpy_returns(pd.DataFrame({"a": ["x", "y"]})), Exception, f"{case}: text accepted")
    ctx.out(f"{T}x{n}")


# ---------------------------------------------------------------- missing prices
def gen_gap(tier):
    for T, n in ((2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (4, 2)) + (((6, 1), (5, 2), (3, 3)) if tier == "thorough" else ()):
        for hole in range(2 ** (T * n)):
            yield [T, n, hole]


def run_gap(case, ctx):
    T, n, hole = case
    miss = np.array([(hole >> k) & 1 for k in range(T * n)], bool).reshape(T, n)
    P = np.where(miss, np.nan, 3.0 + np.array([[(5 * t * t + 7 * i + 3 * t * i) % 11 for i in range(n)] for t in range(T)]))
    F = pd.DataFrame(P, columns=NM[:n])
    for meth in ("simple", "log"):
        raw = [[None if miss[t, i] or miss[t + 1, i] else (P[t + 1, i] / P[t, i] - 1.0 if meth == "simple" else math.log(P[t + 1, i] / P[t, i])) for i in range(n)] for t in range(T - 1)]
        for fill in ("ffill", "bfill", "zero", "drop"):
            want = []
            for t in range(T - 1):
                if fill == "drop" and None in raw[t]:
                    continue
                row = []
                for i in range(n):
                    x = raw[t][i]
                    near = {"ffill": range(t - 1, -1, -1), "bfill": range(t + 1, T - 1)}.get(fill, ())
                    for u in near:
                        if x is None:
                            x = raw[u][i]
                    row.append(0.0 if x is None else x)
                want.append(row)
            want = np.array(want, float).reshape(-1, n)
            ctx.step(); ctx.state()
            got = pandas_to_numpy_returns(F, return_calculation_method=meth, fill_na_method=fill)
            ctx.check(got.shape == want.shape, lambda: f"{case} {meth} {fill}: {got.shape} rows and columns instead of {want.shape}")
            if got.shape == want.shape:
                ctx.close(got, want, 1e-13, f"{case} {meth} {fill}")
    for bad in (P, F):
        if hole:
            ctx.raises(lambda: PortfolioWrapper.from_prices(bad), Exception, f"{case}: missing price accepted")
    ctx.out(f"{T}x{n}")


# ---------------------------------------------------------------- rows in any order and prices of any sign (spreads, forwards)
def gen_sign(tier):
    for T in (2, 3, 4):
        for v in itertools.product((-2.0, -0.5, 1.0, 4.0), repeat=T):
            yield list(v)


def run_sign(case, ctx):
    """Simple returns are the change relative to the previous value; rows are taken in the order given; only the first level of a MultiIndex and the chosen columns matter."""
    x = np.array(case)
    T = len(x)
    y = np.array([3.0, 1.0, 2.0, 5.0])[:T]
    wx, wy = [(b - a) / a for a, b in zip(x, x[1:])], [b / a - 1.0 for a, b in zip(y, y[1:])]
    ly = [math.log(b / a) for a, b in zip(y, y[1:])]
    days = list(pd.date_range("2024-03-01", periods=T))
    for oi, order in enumerate(data.perms(T)[:6] if T < 4 or (int(x.sum() * 2) % 3 == 0) else [tuple(range(T))[::-1]]):
        idx = [days[j] for j in order]
        frames = {"dates": pd.DataFrame({"b": x, "a": y}, index=idx), "numbers": pd.DataFrame({"b": x, "a": y}, index=list(order)), "repeated dates": pd.DataFrame({"b": x, "a": y}, index=[days[0]] * T),
                  "two levels": pd.DataFrame({"b": x, "a": y}, index=pd.MultiIndex.from_arrays([idx, list(order)], names=["when", "lot"]))}
        for tag, F in frames.items():
            keep = F.copy()
            for kw, want in (({}, [wx, wy]), (dict(price_columns=["a"]), [wy]), (dict(price_columns=["a", "b"]), [wy, wx]), (dict(price_columns=["b"]), [wx])):
                ctx.step(); ctx.state()
                got = pandas_to_numpy_returns(F, return_calculation_method="simple", **kw)
                ctx.close(got, np.array(want).T, 1e-14, f"{case} {tag} rows in order {list(order)} {kw}")
            ctx.close(pandas_to_numpy_returns(F, price_columns=["a"]), np.array([ly]).T, 1e-14, f"{case} {tag} rows in order {list(order)}: default is the log return")
            ctx.check(F.equals(keep), f"{case} {tag}: input changed")
        D = pd.DataFrame({"b": x, "when": [str(d.date()) for d in idx], "a": y})
        ctx.close(pandas_to_numpy_returns(D, date_column="when", return_calculation_method="simple"), np.array([wx, wy]).T, 1e-14, f"{case} date column in order {list(order)}")
    ctx.out(f"T={T}")


# ---------------------------------------------------------------- scenario frames with log/simple conversion round trips, and weight helpers
VALS = [-0.5, 0.0, 0.25, 1.0]


def gen_help(tier):
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3):
            yield [n, m]


def run_help(case, ctx):
    n, m = case
    vecs = list(itertools.product(VALS, repeat=n))
    for vi, v in enumerate(vecs):
        w = np.array(v)
        for o in data.perms(n)[:6]:
            L = [NM[j] for j in o]
            s = numpy_weights_to_pandas_series(w, list(L))
            ctx.step(); ctx.state()
            ctx.check(list(s.index) == L and list(s.to_numpy()) == list(v), lambda: f"{case}: {v} labelled {L} became {dict(s)}")
            for label in ("p", None, 0):
                x = wrap_exposure_vector(w, L, label=label)
                ctx.check(list(x.index) == L and list(x.to_numpy()) == list(v) and x.name == label, lambda: f"{case}: {v} wrapped as {x}")
                ctx.step()
        exact(ctx, wrap_exposure_vector(list(v), None, label="p"), v, f"{case}: unlabelled wrap")
        exact(ctx, wrap_exposure_vector(w.reshape(-1, 1), None, label="p"), v, f"{case}: column wrap")
        # sample matrices
        X = np.array([vecs[(vi * 7 + 11 * c) % len(vecs)] for c in range(m)]).T
        a, an, sn = ensure_samples_matrix(X)
        ctx.check(an is None and sn is None, f"{case}: labels out of nothing: {an} {sn}")
        exact(ctx, a, X, f"{case}: sample array")
        for o in data.perms(n)[:6]:
            for so in data.perms(m):
                F = pd.DataFrame(X[np.ix_(o, so)], index=[NM[j] for j in o], columns=[f"s{j}" for j in so])
                a, an, sn = ensure_samples_matrix(F)
                ctx.step(); ctx.state()
                exact(ctx, a, X[np.ix_(o, so)], f"{case}: sample frame")
                ctx.check(list(an) == list(F.index) and list(sn) == list(F.columns), f"{case}: labels {an} {sn}")
        if m == 1:
            for nm in ("p", 0, 7, ""):
                a, an, sn = ensure_samples_matrix(pd.Series(w, index=NM[:n], name=nm))
                exact(ctx, a, w.reshape(-1, 1), f"{case}: sample series")
                ctx.check(list(an) == NM[:n] and list(sn) == [nm], f"{case}: series labels {an} {sn}")
                ctx.step()
            a, an, sn = ensure_samples_matrix(w)
            exact(ctx, a, w.reshape(-1, 1), f"{case}: one-dimensional sample")
    # ensemble weights
    for v in itertools.product([0.0, 0.25, 1.0, 3.0], repeat=m):
        names = [f"s{j}" for j in range(m)]
        for so in data.perms(m):
            s = pd.Series([v[j] for j in so], index=[names[j] for j in so])
            ctx.step(); ctx.state()
            if sum(v) == 0:
                ctx.raises(lambda: normalize_weights(s, m, names), Exception, f"{case}: zero weights accepted")
                continue
            ctx.close(normalize_weights(s, m, names), np.array(v) / sum(v), 1e-15, f"{case}: labelled weights {v} in order {so}")
            ctx.close(normalize_weights(list(v), m, names), np.array(v) / sum(v), 1e-15, f"{case}: weights {v}")
            ctx.close(normalize_weights(np.array(v), m), np.array(v) / sum(v), 1e-15, f"{case}: weights {v}")
    exact(ctx, normalize_weights(None, m), np.full(m, 1 / m), f"{case}: default weights")
    one = [1.0] * m
    for bad, nm in ((one + [1.0], None), (one[:-1] + [np.nan], None), (one[:-1] + [np.inf], None), ([-1.0] + one[1:], None), (pd.Series(one, index=[f"t{j}" for j in range(m)]), [f"s{j}" for j in range(m)]),
                    (pd.Series(one + [1.0], index=[f"s{j}" for j in range(m + 1)]), [f"s{j}" for j in range(m)])):
        ctx.raises(lambda: normalize_weights(bad, m, nm), Exception, f"{case}: ensemble weights {list(bad)} accepted")
    for bad, nm in ((np.ones((n, 1)), NM[:n]), (np.ones(n + 1), NM[:n]), (np.ones(n), tuple(NM[:n]) + ("x",)), (list(np.ones(n)), NM[:n]), (np.ones(n), list(range(n)))):
        ctx.raises(lambda: numpy_weights_to_pandas_series(bad, nm), Exception, f"{case}: {bad} {nm} accepted")
    ctx.raises(lambda: ensure_samples_matrix(np.ones((n, 0))), Exception, f"{case}: no samples accepted")
    ctx.raises(lambda: ensure_samples_matrix(np.ones((n, 2, 2))), Exception, f"{case}: three-dimensional samples accepted")
    ctx.out(f"{n}x{m}")


FAMILIES = [
    Family("distribution", gen_dist, run_dist, "every combination of supplied pieces x data set x containers x label orders, and every single-fault invalid variant", chunk=2),
    Family("probabilities", gen_prob, run_prob, "every probability grid at five totals in four containers"),
    Family("wrappers", gen_wrap, run_wrap, "every constructor x data set x label order, simple and log", chunk=1),
    Family("prices", gen_price, run_price, "every price table on a grid x container x conversion option, and every single-entry fault"),
    Family("gaps", gen_gap, run_gap, "every pattern of missing prices in tables of up to eight entries (thorough: ten) x return method x fill policy against the policy's definition", chunk=8),
    Family("row order and sign", gen_sign, run_sign, "every price path of up to four steps over four values of either sign x row order x index kind x column choice", chunk=8),
    Family("helpers", gen_help, run_help, "every weight vector on a grid x label order through the conversion helpers"),
]
