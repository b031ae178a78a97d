"""C17: moment estimators are exact, equivariant and well-formed."""
import functools
import itertools
import math
from fractions import Fraction as Fr
import numpy as np
import pandas as pd
from mc.core import Family
from mc.ref import simplex_lattice
from pyvallocation import moments as m
from pyvallocation.utils.validation import ensure_psd_matrix, is_psd
from pyvallocation.probabilities import generate_uniform_probabilities

LEVEL = "model_checking"
RULE = "case = one scenario table of a completely enumerated or listed alphabet; every estimator of the menu and every admissible transformation (asset order, scenario order, scale, label) is applied to it"
ASSUMPTIONS = ["iterative estimators (Tyler, Huber, graphical lasso) are compared through their defining equations at their documented convergence tolerance",
               "called directly, estimators other than the sample and Ledoit-Wolf ones take no scenario probabilities (documented signatures); through estimate_moments the shrinkage means start from probability-weighted moments"]


def lcg(T, N, seed, lo=-5, hi=5):
    x, out = seed * 7919 + 13, []
    for _ in range(T * N):
        x = (x * 1103515245 + 12345) % 2 ** 31
        out.append(lo + (x >> 16) % (hi - lo + 1))
    return np.array(out, float).reshape(T, N)


def special(name, T=12):
    X = lcg(T, 3, 5)
    if name == "collinear":
        X[:, 2] = X[:, 0] + X[:, 1]
    elif name == "constant":
        X[:, 1] = 2.0
    elif name == "duplicate":
        X[:, 1] = X[:, 0]
    elif name == "outlier":
        X[3] = [60, -50, 40]
    elif name == "unequal":
        X = X * np.array([1.0, 20.0, 0.1])
    elif name == "trend":
        X = X + np.arange(T)[:, None]
    return X


TABLES = {"quick": [("l", 12, 2, 1), ("l", 15, 3, 2), ("l", 24, 3, 3), ("l", 18, 4, 4), ("l", 5, 3, 6), ("s", "collinear"), ("s", "constant"), ("s", "duplicate"), ("s", "outlier"), ("s", "unequal"), ("s", "trend")]}
TABLES["thorough"] = TABLES["quick"] + [("l", T, N, s) for T in (12, 20, 40) for N in (2, 3, 4) for s in range(10, 22)]


def table(d):
    return lcg(*d[1:]) if d[0] == "l" else special(d[1])


# ---------------------------------------------------------------- sample moments (exact)
def gen_sample(tier):
    vals = (-1, 0, 2)
    for T, N in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
        for cells in itertools.product(vals, repeat=T * N):
            if T * N == 6 and tier == "quick" and cells[0] != -1:
                continue
            yield {"T": T, "N": N, "X": cells, "k": 4 if tier == "quick" else 6}


def run_sample(c, ctx):
    T, N = c["T"], c["N"]
    X = np.array(c["X"], float).reshape(T, N)
    lab = [["a"], ["b", "a"], ["b", "c", "a"]][N - 1]
    rows = ["r%d" % i for i in range(T)]
    for w in simplex_lattice(T, c["k"]):
        k = [int(round(x * c["k"])) for x in w]
        K = sum(k)
        mu = [sum(Fr(k[t], K) * Fr(X[t, i]) for t in range(T)) for i in range(N)]
        S = [[float(sum(Fr(k[t], K) * (Fr(X[t, i]) - mu[i]) * (Fr(X[t, j]) - mu[j]) for t in range(T))) for j in range(N)] for i in range(N)]
        mu = [float(x) for x in mu]
        ctx.state()
        g = m.estimate_sample_moments(X, np.array(w))
        ctx.close(g[0], mu, 1e-13, f"mean p={w}")
        ctx.close(g[1], S, 1e-13, f"covariance p={w}")
        ctx.check(np.array_equal(g[1], g[1].T), "covariance not symmetric")
        D = pd.DataFrame(X, index=rows, columns=lab)
        for R, p in ((D, list(w)), (D, pd.Series(w, index=rows)), (D, pd.Series(w, index=rows)[::-1])):
            g = m.estimate_sample_moments(R, p)
            ctx.check(list(g[0].index) == lab == list(g[1].index) == list(g[1].columns), "labels")
            ctx.close(g[0], mu, 1e-13, "labelled mean")
            ctx.close(g[1], S, 1e-13, "labelled covariance")
        g = m.estimate_moments(D, np.array(w))
        ctx.close(g[0], mu, 1e-13, "factory mean")
        ctx.close(g[1], S, 1e-13, "factory covariance")
        # weight k  <=>  k repetitions, under uniform and under default probabilities
        rep = np.repeat(X, k, axis=0)
        g = m.estimate_sample_moments(rep, generate_uniform_probabilities(K))
        ctx.close(g[0], mu, 1e-13, "repeated scenarios: mean")
        ctx.close(g[1], S, 1e-13, "repeated scenarios: covariance")
        g = m.estimate_moments(rep)
        ctx.close(g[0], mu, 1e-13, "repeated scenarios, no probabilities: mean")
        ctx.close(g[1], S, 1e-13, "repeated scenarios, no probabilities: covariance")
        ctx.step(7)
        ctx.out(f"support {sum(1 for x in k if x)}")


# ---------------------------------------------------------------- helpers
FULL = np.diag([2.0, 1.0, 3.0, 1.5, 4.0, 2.5]) + 0.3 * np.array([[(-1.0) ** (i * j) * (i != j) for j in range(6)] for i in range(6)])


@functools.lru_cache(None)
def even_partitions(T, B):
    """All ways of splitting range(T) into B blocks whose sizes differ by at most one."""
    sizes = [T // B + 1] * (T % B) + [T // B] * (B - T % B)
    out = []

    def go(left, blocks, rest):
        if not rest:
            out.append(tuple(blocks))
            return
        for I in itertools.combinations(left, rest[0]):
            if blocks and len(blocks[-1]) == rest[0] and I < blocks[-1]:
                continue
            go([i for i in left if i not in I], blocks + [I], rest[1:])

    go(list(range(T)), [], sizes)
    return tuple(out)


# ---------------------------------------------------------------- number of POET factors and probability-weighted factories
def gen_fact(tier):
    for N in (4, 5, 6):
        for k in range(1, N - 1):
            for big in ("flat", "steep", "even"):
                for small in ("flat", "even"):
                    yield [N, k, big, small]


def run_fact(case, ctx):
    """A spectrum with one dominant gap after k eigenvalues has k factors, whatever surrounds the gap."""
    N, k, big, small = case
    top = {"flat": [10.0] * k, "steep": [14.0 - 0.5 * i * i for i in range(k)], "even": [12.0 - i for i in range(k)]}[big]
    low = {"flat": [0.5] * (N - k), "even": [0.9 - 0.1 * i for i in range(N - k)]}[small]
    gaps = -np.diff(top + low)
    if gaps[k - 1] < 2.5 * max([g for i, g in enumerate(gaps) if i != k - 1] or [0]):
        ctx.out("no dominant gap")
        return
    T = 4 * N
    t = np.arange(T) + 0.5
    Z = np.column_stack([np.cos(np.pi * t * (j + 1) / T) for j in range(N)]) * np.sqrt(2.0 * (T - 1) / T)
    H = np.linalg.qr(np.array([[np.sin(1.0 + i * j + i) for j in range(N)] for i in range(N)]))[0]
    for sc in (1.0, 1e-2, 1e2):
        X = sc * Z @ np.diag(np.sqrt(top + low)) @ H.T
        for D in (X, pd.DataFrame(X, columns=[f"a{j}" for j in range(N)])):
            ctx.state()
            ctx.step()
            Sg, B, Fs = m.factor_covariance_poet(D, standardize=False, return_decomp=True)
            ctx.check(np.asarray(B).shape == (N, k), lambda: f"{case}: {np.asarray(B).shape[1]} factors for the spectrum {top + low}")
            ref_, RB, _ = m.factor_covariance_poet(D, k=k, standardize=False, return_decomp=True)
            rel(ctx, Sg, np.asarray(ref_), 1e-12, f"{case}: automatic count equals the explicit one")
    ctx.out(f"{k} factors")


def gen_weighted(tier):
    for T, N in ((3, 3), (5, 3), (4, 2)):
        for a in range(3):
            for w in simplex_lattice(T, 5 if T < 5 else 6)[::1 if T < 5 else 5]:
                if min(w) > 0 or T > 3:
                    yield [T, N, a, list(w)]


def run_weighted(case, ctx):
    """Estimators fed by sample moments use the probability-weighted ones, whatever the container."""
    T, N, a, w = case
    X = np.array([[((3 + a) * t * t + (2 * a + 5) * i * t + 7 * i * i) % 11 - 4.0 for i in range(N)] for t in range(T)]) * 0.01
    lab = ["b", "a", "c"][:N]
    rows = ["r%d" % t for t in range(T)]
    D = pd.DataFrame(X, index=rows, columns=lab)
    mu, S = (np.asarray(x) for x in m.estimate_sample_moments(X, np.array(w)))
    if np.linalg.eigvalsh(S)[0] < 1e-9:
        ctx.out("singular")
        return
    for R, p, tag in ((X, np.array(w), "array"), (D, list(w), "frame"), (D, pd.Series(w, index=rows)[::-1], "labelled")):
        ctx.state()
        if N > 2:
            ctx.close(m.estimate_moments(R, p, mean_estimator="jorion")[0], m.shrink_mean_jorion(mu, S, T), 1e-12, f"{case} {tag}: Jorion of the weighted moments")
        ctx.close(m.estimate_moments(R, p, mean_estimator="james_stein")[0], m.shrink_mean_james_stein(mu, S, T), 1e-12, f"{case} {tag}: James-Stein of the weighted moments")
        for tg in ("identity", "constant_correlation"):
            g = m.estimate_moments(R, p, cov_estimator="ledoit_wolf", cov_kwargs=dict(target=tg))
            ctx.close(g[1], m.shrink_covariance_ledoit_wolf(X, S, tg), 1e-12, f"{case} {tag}: Ledoit-Wolf {tg} of the weighted covariance")
            ctx.close(g[0], mu, 1e-12, f"{case} {tag}: mean")
        ctx.step(4)
    ctx.out("weighted")


# ---------------------------------------------------------------- covariance estimators
COVS = {
    "lw_id": lambda R: m.shrink_covariance_ledoit_wolf(R, m.estimate_moments(R)[1]),
    "lw_cc": lambda R: m.shrink_covariance_ledoit_wolf(R, m.estimate_moments(R)[1], target="constant_correlation"),
    "oas": lambda R: m.shrink_covariance_oas(R), "oas_c": lambda R: m.shrink_covariance_oas(R, assume_centered=False),
    "nls": lambda R: m.shrink_covariance_nls(R), "nls_1": lambda R: m.shrink_covariance_nls(R, dof_correction=1),
    "poet": lambda R: m.factor_covariance_poet(R), "poet_1_0": lambda R: m.factor_covariance_poet(R, k=1, thresh=0.0), "poet_1_.1": lambda R: m.factor_covariance_poet(R, k=1, thresh=0.1),
    "poet_raw": lambda R: m.factor_covariance_poet(R, k=1, standardize=False),
    "tyler": lambda R: m.robust_covariance_tyler(R, shrinkage=0.2), "tyler_0": lambda R: m.robust_covariance_tyler(R), "tyler_1": lambda R: m.robust_covariance_tyler(R, shrinkage=1.0),
    "ewma": lambda R: m.covariance_ewma(R, span=5), "ewma_d": lambda R: m.covariance_ewma(R),
    "sample": lambda R: m.estimate_moments(R)[1],
    "glasso": None, "glasso_a": lambda R: m.sparse_precision_glasso(R), "glasso_c": lambda R: m.sparse_precision_glasso(R, assume_centered=False),
}
FACT = {"lw_id": ("ledoit_wolf", {}), "lw_cc": ("lw", {"target": "constant_correlation"}), "oas": ("oas", {}), "oas_c": ("OAS", {"assume_centered": False}), "nls": ("nls", {}), "nls_1": ("nonlinear", {"dof_correction": 1}),
        "poet": ("poet", {}), "poet_1_0": ("poet", {"k": 1, "thresh": 0.0, "return_decomp": True}), "tyler": ("tyler", {"shrinkage": 0.2}), "tyler_1": ("tyler_shrinkage", {"shrinkage": 1.0}), "ewma": ("ewma", {"span": 5}),
        "ewma_d": ("ewma", {}), "sample": ("empirical", {}), "glasso_a": ("glasso", {}), "glasso_c": ("graphical_lasso", {"assume_centered": False, "return_precision": True})}
MEANS = {
    "jorion": lambda R: m.shrink_mean_jorion(*m.estimate_moments(R), T=len(R)), "js": lambda R: m.shrink_mean_james_stein(*m.estimate_moments(R), T=len(R)),
    "huber": lambda R: m.robust_mean_huber(R), "mom": lambda R: m.robust_mean_median_of_means(R, random_state=3), "mom4": lambda R: m.robust_mean_median_of_means(R, n_blocks=4, random_state=np.random.default_rng(5)),
    "sample": lambda R: m.estimate_moments(R)[0],
}
FACTM = {"jorion": ("jorion", {}), "js": ("james_stein", {}), "huber": ("huber", {}), "mom": ("median_of_means", {"random_state": 3}), "mom4": ("mom", {"n_blocks": 4, "random_state": 7}), "sample": ("simple", {})}
ORDER_DEP = {"ewma", "ewma_d", "glasso_a", "glasso_c", "mom", "mom4"}     # time matters / folds or blocks are positional
TOL = {"tyler": 2e-5, "tyler_0": 2e-4, "glasso": 3e-4, "glasso_a": 3e-3, "glasso_c": 3e-3, "huber": 2e-5, "nls": 1e-6, "nls_1": 1e-6}


def tyler_ok(X):
    """Tyler's unregularised estimator exists when no proper subspace holds too many centred scenarios."""
    Xc = X - X.mean(0)
    return len(X) >= 4 * X.shape[1] and np.linalg.matrix_rank(Xc) == X.shape[1] and np.linalg.cond(Xc) < 1e2


def usable(k, X):
    T, N = X.shape
    if k.startswith("nls"):
        return T >= 14 and np.linalg.cond(np.cov(X.T) if N > 1 else np.eye(1)) < 1e6
    if k == "tyler_0":
        return tyler_ok(X)
    if k.startswith("poet"):
        return T >= 2
    if k.startswith("glasso"):
        return T >= 6 and max(np.linalg.cond(A.T @ A) for A in (X, X - X.mean(0))) < 1e4
    return True


def gen_cov(tier):
    for d in TABLES[tier]:
        for k in COVS:
            if usable(k, table(d)):
                yield {"d": d, "k": k}


def est_cov(k, R):
    if k == "glasso":
        A = np.asarray(R, float)
        return m.sparse_precision_glasso(R, alpha=0.3 * float(np.max(np.abs(np.triu(A.T @ A / len(A), 1)))) + 1e-9 * float(np.max(A * A)))
    return COVS[k](R)


def wellformed(ctx, S, N, msg):
    S = np.asarray(S, float)
    ctx.check(S.shape == (N, N) and bool(np.all(np.isfinite(S))), f"{msg}: not a finite {N}x{N} matrix")
    sc = float(np.max(np.abs(S)))
    ctx.check(float(np.max(np.abs(S - S.T))) <= 1e-13 * sc, f"{msg}: not symmetric")
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    ctx.check(ev[0] >= -2e-8 * sc, lambda: f"{msg}: not positive semidefinite, eigenvalues {ev}")


def rel(ctx, got, want, tol, msg):
    g, w = np.asarray(got, float), np.asarray(want, float)
    sc = max(float(np.max(np.abs(w))), 1e-300)
    ctx.close(g / sc, w / sc, tol, msg)


def run_cov(c, ctx):
    X, k = table(c["d"]), c["k"]
    T, N = X.shape
    tol = TOL.get(k, 1e-9)
    lab = ["b", "d", "a", "c"][:N]
    keep = X.copy()
    base = np.asarray(est_cov(k, X), float)
    ctx.step()
    ctx.state()
    ctx.check(np.array_equal(X, keep), "input modified")
    wellformed(ctx, base, N, k)
    rel(ctx, est_cov(k, X), base, 0 if k != "nls" else 1e-12, f"{k}: not reproducible")
    D = pd.DataFrame(X, columns=lab, index=pd.date_range("2020-01-01", periods=T))
    keepD = D.copy(deep=True)
    L = est_cov(k, D)
    ctx.check(isinstance(L, pd.DataFrame) and list(L.index) == lab == list(L.columns), f"{k}: labels lost")
    rel(ctx, L, base, 1e-12, f"{k}: labelled result differs")
    ctx.check(D.equals(keepD), f"{k}: labelled input modified")
    if k in FACT:
        name, kw = FACT[k]
        kw0 = dict(kw)
        mu, F = m.estimate_moments(D, cov_estimator=name, cov_kwargs=kw)
        rel(ctx, F, base, 1e-12, f"{k}: factory result differs")
        ctx.check(isinstance(F, pd.DataFrame) and list(F.columns) == lab, f"{k}: factory labels")
        rel(ctx, mu, X.mean(0), 1e-12, "factory mean")
        ctx.check(kw == kw0, "factory modified the caller's options")
    ties = c["d"][-1] in ("duplicate",)
    for p in itertools.permutations(range(N)):
        ctx.state()
        Y = D.iloc[:, list(p)]
        G = est_cov(k, Y)
        ctx.step()
        ctx.check(list(G.index) == [lab[i] for i in p] == list(G.columns), f"{k}: labels of permuted assets")
        if not (ties and k.startswith("poet")):
            rel(ctx, G.loc[lab, lab], base, tol, f"{k}: assets permuted {p}")
    if k not in ORDER_DEP:
        for q in (list(range(T))[::-1], list(range(3, T)) + list(range(min(3, T))), sorted(range(T), key=lambda i: (i * 7) % T)):
            rel(ctx, est_cov(k, X[q]), base, tol, f"{k}: scenario order")
            ctx.step()
            ctx.state()
    for s in (0.01, 1e-4, 8.0, -1.0):
        got = np.asarray(est_cov(k, X * s))
        ctx.step()
        ctx.state()
        wellformed(ctx, got, N, f"{k} scaled by {s}")
        if not k.startswith("nls") or abs(s) > 0.001:
            rel(ctx, got / s / s, base, max(tol, 1e-9), f"{k}: scenarios scaled by {s}")
    if k in ("lw_id", "lw_cc", "oas_c", "nls", "poet", "poet_1_0", "tyler", "sample", "glasso_c"):
        Y = X + np.linspace(-3, 4, N)
        rel(ctx, est_cov(k, Y), base, max(tol, 1e-8), f"{k}: shifting the data changes the covariance")
    ctx.out("ok")


# ---------------------------------------------------------------- definitions
def lw_ref(X, S, target):
    """Ledoit-Wolf intensity by explicit sums over scenarios and entries."""
    T, N = X.shape
    Y = X - X.mean(0)
    if target == "identity":
        F = np.eye(N) * np.trace(S) / N
        d2 = ((S - F) ** 2).sum()
        b2 = sum(((np.outer(y, y) - S) ** 2).sum() for y in Y) / T ** 2
        return F, (min(b2, d2) / d2 if d2 > 0 else 0.0)
    sd = np.sqrt(np.diag(S))
    r = [S[i, j] / (sd[i] * sd[j]) if sd[i] * sd[j] > 0 else 0.0 for i in range(N) for j in range(i + 1, N)]
    rb = sum(r) / len(r) if r else 0.0
    F = np.array([[S[i, i] if i == j else rb * sd[i] * sd[j] for j in range(N)] for i in range(N)])
    pi = sum((Y[t, i] * Y[t, j] - S[i, j]) ** 2 for t in range(T) for i in range(N) for j in range(N)) / T
    rho = sum((Y[t, i] ** 2 - S[i, i]) ** 2 for t in range(T) for i in range(N)) / T
    for i in range(N):
        for j in range(N):
            if i != j and sd[i] > 0 and sd[j] > 0:
                th_i = sum((Y[t, i] ** 2 - S[i, i]) * (Y[t, i] * Y[t, j] - S[i, j]) for t in range(T)) / T
                th_j = sum((Y[t, j] ** 2 - S[j, j]) * (Y[t, i] * Y[t, j] - S[i, j]) for t in range(T)) / T
                rho += rb / 2 * (sd[j] / sd[i] * th_i + sd[i] / sd[j] * th_j)
    ga = ((F - S) ** 2).sum()
    return F, (min(1.0, max(0.0, (pi - rho) / ga / T)) if ga > 0 else 0.0)


def oas_ref(X, centered):
    T, N = X.shape
    Y = X if centered else X - X.mean(0)
    S = Y.T @ Y / T
    if N == 1:
        return S, S, 0.0
    t2, t1 = np.trace(S @ S), np.trace(S)
    num, den = (1 - 2 / N) * t2 + t1 ** 2, (T + 1 - 2 / N) * (t2 - t1 ** 2 / N)
    return S, np.eye(N) * t1 / N, (1.0 if den <= 1e-14 * t2 else min(1.0, num / den))


def gen_def(tier):
    for T, N in ((3, 2), (2, 2), (4, 1)):
        for cells in itertools.product((-1, 0, 2), repeat=T * N):
            yield {"X": cells, "T": T, "N": N, "full": False}
    for d in TABLES[tier]:
        X = table(d)
        yield {"X": X.ravel().tolist(), "T": X.shape[0], "N": X.shape[1], "full": True}


def run_def(c, ctx):
    T, N = c["T"], c["N"]
    X = np.array(c["X"], float).reshape(T, N)
    S = (X - X.mean(0)).T @ (X - X.mean(0)) / T
    sc = max(1.0, float(np.max(np.abs(X))) ** 2)
    for tg in ("identity", "constant_correlation"):
        for nm, S0 in (("", S), (" (weighted covariance)", np.asarray(m.estimate_sample_moments(X, np.arange(1, T + 1) / (T * (T + 1) / 2))[1]))):
            F, d = lw_ref(X, S0, tg)
            got = m.shrink_covariance_ledoit_wolf(X, S0, target=tg)
            ctx.step()
            ctx.state()
            ctx.close(np.asarray(got) / sc, (d * F + (1 - d) * S0) / sc, 3e-8 if nm or tg[0] == "c" else 1e-9, f"Ledoit-Wolf {tg}{nm}: intensity {d}")
            ctx.out("lw full" if d == 1 else "lw none" if d == 0 else "lw partial")
    for cen in (True, False):
        S0, F, d = oas_ref(X, cen)
        ctx.close(m.shrink_covariance_oas(X, assume_centered=cen) / sc, (d * F + (1 - d) * S0) / sc, 1e-9, f"OAS centred={cen}: intensity {d}")
        ctx.step()
        ctx.state()
    for span in (1, 1.5, 2, 2.75, 3, 9, 252):
        lam = 1 - 2 / (span + 1)
        w = [lam ** (T - 1) if t == 0 else (1 - lam) * lam ** (T - 1 - t) for t in range(T)]
        ctx.close(m.covariance_ewma(X, span=span) / sc, sum(w[t] * np.outer(X[t], X[t]) for t in range(T)) / sc, 1e-11, f"EWMA span {span}")
        ctx.step()
        ctx.state()
    ctx.check(np.array_equal(m.covariance_ewma(X, span=4, min_periods=T), m.covariance_ewma(X, span=4)), "EWMA refused or changed by exactly the required number of observations")
    rng_mu = X.mean(0)
    if N > 2 and np.linalg.cond(S) < 1e8:
        Si = np.linalg.inv(S)
        one = np.ones(N)
        mg = one @ Si @ rng_mu / (one @ Si @ one)
        df = rng_mu - mg
        v = (N + 2) / (N + 2 + T * df @ Si @ df)
        ctx.close(m.shrink_mean_jorion(rng_mu, S, T), rng_mu - v * df, 1e-6, "Jorion shrinkage")
        for t in (1, 2, N, N + 1, 50):
            v = (N + 2) / (N + 2 + t * df @ Si @ df)
            ctx.close(m.shrink_mean_jorion(rng_mu, S, t), rng_mu - v * df, 1e-6, f"Jorion shrinkage for {t} observations")
    if np.linalg.cond(S) < 1e8:
        Si = np.linalg.inv(S)
        for tg in ("grand_mean", np.zeros(N), np.arange(N) - 0.5):
            t0 = np.full(N, rng_mu.mean()) if isinstance(tg, str) else tg
            df = rng_mu - t0
            q = T * df @ Si @ df
            k = 0.0 if q <= 0 else min(1.0, max(0.0, 1 - (N - 2) / q))
            ctx.close(m.shrink_mean_james_stein(rng_mu, S, T, target=tg), t0 + k * df, 1e-7, f"James-Stein target {tg}")
            ctx.step()
            ctx.state()
    # median of means: every block count; the estimate is a median of near-equal block means of a partition
    for B in (1, 2, T, T + 3):
        got = np.asarray(m.robust_mean_median_of_means(X, n_blocks=B, random_state=0))
        ctx.step()
        if B == 1:
            ctx.close(got, rng_mu, 1e-12, "one block is the mean")
        elif B >= T:
            ctx.close(got, np.median(X, axis=0), 1e-12, "singleton blocks give the median")
        elif T <= 4:
            cand = []
            for I in itertools.combinations(range(T), (T + 1) // 2):
                J = [i for i in range(T) if i not in I]
                cand.append((X[list(I)].mean(0) + X[J].mean(0)) / 2)
            ctx.check(any(np.allclose(got, x, atol=1e-12) for x in cand), "median of two block means of no partition")
    if T in (5, 6) and N <= 3:
        for B in (2, 3, 4):
            for seed in (0, 1, 2):
                got = np.asarray(m.robust_mean_median_of_means(X, n_blocks=B, random_state=seed))
                ctx.step()
                ctx.check(any(np.allclose(got, np.median([X[list(b)].mean(0) for b in part], axis=0), atol=1e-12) for part in even_partitions(T, B)), f"median of {B} block means of no near-equal partition")
    # Huber fixed point with the documented adaptive threshold
    hub = np.asarray(m.robust_mean_huber(X, tol=1e-12, max_iter=5000))
    ctx.step()
    for j in range(N):
        x = X[:, j]
        md = np.median(x)
        mad = 1.4826 * np.median(np.abs(x - md))
        tau = mad * math.sqrt(T / max(math.log(max(T, 3)), 2.0))
        ctx.check(x.min() - 1e-9 <= hub[j] <= x.max() + 1e-9, "Huber mean outside the data range")
        if mad > 0:
            ctx.close(np.clip(x - hub[j], -tau, tau).sum() / (T * tau), 0, 1e-6, "Huber estimating equation")
    if not c["full"]:
        return
    S1 = np.atleast_2d(np.cov(X.T, ddof=1))
    for st in (True, False):
        rel(ctx, m.factor_covariance_poet(X, k=N, standardize=st), S1, 3e-8, "POET with all factors is the sample covariance")
        rel(ctx, m.factor_covariance_poet(X, k=1, thresh=0.0, standardize=st), S1, 3e-8, "POET without threshold is the sample covariance")
        sd = X.std(0, ddof=1) if st else np.ones(N)
        sd = np.where(sd <= 1e-12, 1.0, sd)
        Z = S1 / np.outer(sd, sd)
        w, V = np.linalg.eigh(Z)
        if N > 1 and w[-1] - w[-2] > 1e-6 * w[-1]:
            f = w[-1] * np.outer(V[:, -1], V[:, -1])
            for th in (0.05, 0.2, 1e9):
                R = Z - f
                R = np.sign(R) * np.maximum(np.abs(R) - th, 0) * (1 - np.eye(N)) + np.diag(np.diag(R))
                W = (f + R) * np.outer(sd, sd)
                if np.linalg.eigvalsh(W)[0] >= 0:
                    rel(ctx, m.factor_covariance_poet(X, k=1, thresh=th, standardize=st), W, 1e-8, f"POET one factor threshold {th}")
            Sg, B, Fs = m.factor_covariance_poet(X, k=1, return_decomp=True, standardize=st)
            rel(ctx, np.asarray(B) @ np.asarray(B).T, f * np.outer(sd, sd), 1e-8, "POET loadings")
            rel(ctx, np.abs(np.asarray(Fs)).ravel(), np.abs((X - X.mean(0)) / sd @ V[:, -1]), 1e-8, "POET scores")
            ctx.state(5)
            ctx.step(7)
    # Tyler: trace and fixed point
    Xc = X - X.mean(0)
    for s, tg in ((0.2, "identity"), (0.5, np.diag(np.arange(1.0, N + 1))), (1.0, "identity"), (0.0, "identity"), (1.0, FULL[:N, :N]), (0.3, FULL[:N, :N])):
        if s == 0.0 and not tyler_ok(X):
            continue
        G = np.asarray(m.robust_covariance_tyler(X, shrinkage=s, target=tg, tol=1e-10, max_iter=5000))
        ctx.step()
        ctx.state()
        tr = np.trace(S1)
        if tr <= 0:
            continue
        ctx.close(np.trace(G) / tr, 1.0, 1e-7, f"Tyler shrinkage {s}: total variance")
        C = G / np.trace(G) * N
        T0 = np.eye(N) if isinstance(tg, str) else tg * N / np.trace(tg)
        if s == 1.0:
            ctx.close(C, T0, 1e-9, "Tyler with full shrinkage is the target")
            continue
        q = np.einsum("ti,ij,tj->t", Xc, np.linalg.inv(C), Xc)
        ok = q > 1e-4 * q.max()
        U = sum(np.outer(x, x) / y for x, y in zip(Xc[ok], q[ok]))
        ctx.close(C, (1 - s) * U / np.trace(U) * N + s * T0, 1e-6, f"Tyler shrinkage {s}: fixed point")
    if usable("glasso", X):
        for scale in (1.0, 0.01):
            A = X * scale
            E = A.T @ A / T
            off = ~np.eye(N, dtype=bool)
            mx = float(np.max(np.abs(E[off])))
            for a in (0.02, 0.3, 0.7, 1.01):
                Sg, Th = m.sparse_precision_glasso(A, alpha=a * mx, return_precision=True)
                ctx.step()
                ctx.state()
                Sg, Th = np.asarray(Sg), np.asarray(Th)
                ctx.close(Sg @ Th, np.eye(N), 1e-6, "covariance is not the inverse of the precision")
                G = (E - Sg) / np.max(np.abs(E))
                e = a * mx / np.max(np.abs(E))
                ctx.close(np.diag(G), np.zeros(N), 5e-4, f"graphical lasso alpha={a}: diagonal")
                ctx.check(float(np.max(np.abs(G[off]))) <= e + 5e-4, f"graphical lasso alpha={a}: optimality")
                nz = off & (np.abs(Th) > 1e-3 * np.max(np.abs(Th)))
                if nz.any():
                    ctx.close(G[nz], -e * np.sign(Th[nz]), 2e-3, f"graphical lasso alpha={a}: active entries")
                if a > 1:
                    ctx.check(bool(np.all(np.abs(Th[off]) <= 1e-9 * np.max(np.abs(Th)))), "penalty above every covariance does not give a diagonal precision")
        # the automatic penalty is the best of its grid by interleaved five-fold likelihood
        if T >= 5 and c.get("auto", True):
            for scale, cen in ((1.0, True), (0.01, False)):
                A = X * scale
                A0 = A if cen else A - A.mean(0)
                E = A0.T @ A0 / T
                mx = float(np.max(np.abs(E[off])))
                if mx < 1e-3 * float(np.max(np.diag(E))):
                    continue
                grid = np.geomspace(mx, mx / 100, num=5)
                K = min(5, T)
                sc_ = []
                try:
                    for al in grid:
                        r = []
                        for k in range(K):
                            tr = A0[np.arange(T) % K != k]
                            va = A0[np.arange(T) % K == k]
                            _, Th = m.sparse_precision_glasso(tr, alpha=float(al), return_precision=True)
                            r.append(np.linalg.slogdet(Th)[1] - np.trace(va.T @ va / len(va) @ Th))
                        sc_.append(float(np.mean(r)))
                    Sg, Th = m.sparse_precision_glasso(A, assume_centered=cen, return_precision=True)
                except Exception:
                    ctx.out("automatic penalty: a fold has no solution")
                    continue
                ctx.step(len(grid) * K + 1)
                ctx.state()
                good = [al for al, v in zip(grid, sc_) if v >= max(sc_) - 1e-6]
                fits = [np.asarray(m.sparse_precision_glasso(A, alpha=float(al), assume_centered=cen)) for al in good]
                ctx.out(f"automatic penalty: grid value {int(np.argmax(sc_))}")
                ctx.check(any(np.allclose(np.asarray(Sg), f, rtol=0, atol=1e-6 * float(np.max(np.abs(E)))) for f in fits), f"automatic penalty is not the best by cross-validation {np.round(sc_, 4)}")
    ctx.out("full")


# ---------------------------------------------------------------- mean estimators
def gen_mean(tier):
    for d in TABLES[tier]:
        for k in MEANS:
            X = table(d)
            if k == "jorion" and (X.shape[1] < 3 or np.linalg.cond(np.cov(X.T)) > 1e6):
                continue
            yield {"d": d, "k": k}


def run_mean(c, ctx):
    X, k = table(c["d"]), c["k"]
    T, N = X.shape
    lab = ["b", "d", "a", "c"][:N]
    f = lambda R: MEANS[k](R)
    base = np.asarray(f(X), float)
    tol = {"huber": 2e-5, "jorion": 1e-6, "js": 1e-6}.get(k, 1e-11)
    sing = np.linalg.cond(np.cov(X.T)) > 1e6
    ctx.check(base.shape == (N,) and bool(np.all(np.isfinite(base))), "not a finite vector")
    ctx.check(bool(np.all(base <= X.max() + 1e-9) and np.all(base >= X.min() - 1e-9)), f"{k}: outside the data range")
    D = pd.DataFrame(X, columns=lab, index=pd.date_range("2020-01-01", periods=T))
    L = f(D)
    ctx.check(isinstance(L, pd.Series) and list(L.index) == lab, f"{k}: labels lost")
    ctx.close(L, base, 1e-12, f"{k}: labelled result differs")
    name, kw = FACTM[k]
    L = m.estimate_moments(D, mean_estimator=name, mean_kwargs=kw)[0]
    ctx.check(list(L.index) == lab, f"{k}: factory labels")
    if k != "mom4":
        ctx.close(L, base, 1e-12, f"{k}: factory")
    else:
        ctx.close(L, m.robust_mean_median_of_means(X, n_blocks=4, random_state=7), 1e-12, "factory options ignored")
    for p in itertools.permutations(range(N)):
        G = f(D.iloc[:, list(p)])
        ctx.step()
        ctx.state()
        ctx.check(list(G.index) == [lab[i] for i in p], f"{k}: labels of permuted assets")
        if not (sing and k == "js"):
            ctx.close(G[lab], base, tol, f"{k}: assets permuted {p}")
    if k not in ORDER_DEP:
        for q in (list(range(T))[::-1], list(range(3, T)) + list(range(min(3, T)))):
            ctx.close(f(X[q]), base, max(tol, 1e-10) if not sing else 1e-5, f"{k}: scenario order")
    for s in (0.01, 1e-3, 8.0, -1.0):
        if k == "jorion" and abs(s) < 0.1:
            continue                                  # documented absolute ridge of 1e-8 in the inversion
        if k == "js" and sing:
            continue
        got = np.asarray(f(X * s)) / s
        ctx.step()
        ctx.state()
        ctx.close(got, base, max(tol, 1e-9), f"{k}: scenarios scaled by {s}")
    sh = 3.5
    if not (k == "js" and sing):
        ctx.close(np.asarray(f(X + sh)) - sh, base, max(tol, 1e-9), f"{k}: shifting every scenario")
    ctx.out("ok")


# ---------------------------------------------------------------- PSD repair
def gen_psd(tier):
    v = (-1.0, 0.0, 0.5, 2.0)
    for a in itertools.product(v, repeat=3):
        yield {"n": 2, "v": a}
    for a in itertools.product((-1.0, 0.5, 2.0) if tier == "quick" else v, repeat=6):
        yield {"n": 3, "v": a}


def run_psd(c, ctx):
    n = c["n"]
    M = np.zeros((n, n))
    M[np.triu_indices(n)] = c["v"]
    M = np.triu(M) + np.triu(M, 1).T
    ev = np.linalg.eigvalsh(M)
    ctx.check(bool(is_psd(M)) == bool(ev[0] >= -1e-8), "is_psd verdict")
    for s in (1.0, 1e-4, 1e-6, 100.0):
        A = M * s
        keep = A.copy()
        R = ensure_psd_matrix(A)
        ctx.step()
        ctx.state()
        ctx.check(np.array_equal(A, keep), "input modified")
        e = np.linalg.eigvalsh(R)
        ctx.check(e[0] >= -2e-8 * s, f"scale {s}: still indefinite ({e})")
        off = ~np.eye(n, dtype=bool)
        ctx.close(R[off] / s, M[off], 1e-12, "off-diagonal entries changed")
        add = np.diag(R - A) / s
        ctx.close(add, np.full(n, add[0]), 1e-9, "not a multiple of the identity")
        ctx.close(add[0], max(0.0, -ev[0]), 2e-6, f"scale {s}: more than the deficit was added")
        ctx.out("repaired" if ev[0] < 0 else "kept")
    B = M.copy()
    B[0, 1] += 0.25
    B[1, 0] -= 0.25
    if ev[0] > 0.0:
        ctx.close(ensure_psd_matrix(B), M, 1e-12, "asymmetric input is not symmetrised")


# ---------------------------------------------------------------- rejection and edge shapes
def gen_bad(tier):
    yield {"bad": 1}


def run_bad(c, ctx):
    X = lcg(12, 3, 9)
    S = np.cov(X.T, ddof=0)
    nan = float("nan")
    bad = X.copy()
    bad[4, 1] = nan
    inf = X.copy()
    inf[4, 1] = float("inf")
    D = pd.DataFrame(X, columns=list("abc"))
    SD = pd.DataFrame(S, index=list("abc"), columns=list("abc"))
    R = ctx.raises
    for p in ([0.5] * 12, [-0.1, 1.1] + [0] * 10, [1 / 11] * 11, [nan] + [1 / 11] * 11):
        R(lambda: m.estimate_sample_moments(X, p), ValueError, f"probabilities {p[:2]}")
        R(lambda: m.estimate_moments(X, p), ValueError, f"factory probabilities {p[:2]}")
    R(lambda: m.estimate_sample_moments(D, pd.Series([1 / 11] * 11)), ValueError, "short labelled probabilities")
    for kw in (dict(mean_estimator="nope"), dict(cov_estimator="nope")):
        R(lambda: m.estimate_moments(X, **kw), ValueError, str(kw))
    R(lambda: m.estimate_moments(X[:, 0]), ValueError, "one-dimensional scenarios")
    for t in (0, -1):
        R(lambda: m.shrink_mean_jorion(X.mean(0), S, t), ValueError, f"Jorion T={t}")
        R(lambda: m.shrink_mean_james_stein(X.mean(0), S, t), ValueError, f"James-Stein T={t}")
    R(lambda: m.shrink_mean_jorion(X.mean(0)[:2], S[:2, :2], 5), ValueError, "Jorion with two assets")
    R(lambda: m.shrink_mean_jorion(X.mean(0), S[:2, :2], 5), ValueError, "Jorion shapes")
    R(lambda: m.shrink_mean_james_stein(X.mean(0), S[:2, :2], 5), ValueError, "James-Stein shapes")
    R(lambda: m.shrink_mean_james_stein(X.mean(0), S, 5, target="zero"), ValueError, "James-Stein target name")
    R(lambda: m.shrink_mean_james_stein(X.mean(0), S, 5, target=[0.1]), ValueError, "James-Stein target length")
    R(lambda: m.shrink_mean_james_stein(D.mean(), SD, 5, target=pd.Series([0.0, 0, 1], index=list("cab"))), ValueError, "James-Stein target in another order")
    R(lambda: m.shrink_mean_james_stein(D.mean(), SD.loc[list("cab"), list("cab")], 5), ValueError, "James-Stein covariance in another order")
    R(lambda: m.shrink_mean_jorion(D.mean(), SD.loc[list("cab"), list("cab")], 5), ValueError, "Jorion covariance in another order")
    R(lambda: m.shrink_covariance_ledoit_wolf(D, SD.loc[list("cab"), list("cab")]), ValueError, "Ledoit-Wolf covariance in another order")
    R(lambda: m.robust_covariance_tyler(D, shrinkage=0.5, target=SD.loc[list("cab"), list("cab")]), ValueError, "Tyler target in another order")
    R(lambda: m.shrink_covariance_ledoit_wolf(X, S[:2, :2]), ValueError, "Ledoit-Wolf shapes")
    R(lambda: m.shrink_covariance_ledoit_wolf(X, S, target="nope"), ValueError, "Ledoit-Wolf target")
    R(lambda: m.shrink_covariance_oas(X[:, 0]), ValueError, "OAS dimension")
    R(lambda: m.shrink_covariance_oas(X[:0]), ValueError, "OAS empty")
    R(lambda: m.shrink_covariance_nls(S, input_is_cov=True), ValueError, "NLS covariance input")
    R(lambda: m.factor_covariance_poet(X, k=0), ValueError, "POET k")
    R(lambda: m.factor_covariance_poet(X, thresh=-1.0), ValueError, "POET threshold")
    for s in (-0.1, 1.1):
        R(lambda: m.robust_covariance_tyler(X, shrinkage=s), ValueError, "Tyler shrinkage")
    R(lambda: m.robust_covariance_tyler(X, target="nope"), ValueError, "Tyler target name")
    R(lambda: m.robust_covariance_tyler(X, target=np.eye(2)), ValueError, "Tyler target shape")
    R(lambda: m.covariance_ewma(X, min_periods=13), ValueError, "EWMA observations")
    for sp in (0, -3, 0.5):
        R(lambda: m.covariance_ewma(X, span=sp), ValueError, f"EWMA span {sp}")
    R(lambda: m.sparse_precision_glasso(X, alpha=0.0), ValueError, "glasso alpha")
    R(lambda: m.sparse_precision_glasso(X[:1]), ValueError, "glasso observations")
    R(lambda: m.robust_mean_huber(X[:, 0]), ValueError, "Huber dimension")
    R(lambda: m.robust_mean_median_of_means(X, n_blocks=0), ValueError, "median of means blocks")
    # data holes are never silently replaced by numbers
    for B in (bad, inf):
        for nm, f in [("oas", lambda: m.shrink_covariance_oas(B)), ("oas_c", lambda: m.shrink_covariance_oas(B, assume_centered=False)), ("tyler", lambda: m.robust_covariance_tyler(B, shrinkage=0.1)),
                      ("glasso", lambda: m.sparse_precision_glasso(B, alpha=0.5)), ("glasso auto", lambda: m.sparse_precision_glasso(B))]:
            ctx.state()
            ctx.step()
            try:
                r = np.asarray(f())
            except Exception:
                ctx.check(True, "")
                continue
            ctx.check(not np.all(np.isfinite(r)), f"{nm}: a non-finite observation yields a finite covariance")
    # one asset
    x1 = lcg(9, 1, 4)
    v = float(((x1 - x1.mean()) ** 2).mean())
    mu, Sg = m.estimate_moments(x1)
    ctx.close(Sg, [[v]], 1e-12, "one asset: sample")
    ctx.close(m.estimate_sample_moments(x1, [1 / 9] * 9)[1], [[v]], 1e-12, "one asset: weighted sample")
    for e in ("ledoit_wolf", "sample"):
        ctx.close(m.estimate_moments(x1, cov_estimator=e)[1], [[v]], 1e-9, f"one asset: {e}")
    for e in ("tyler", "poet"):
        ctx.close(m.estimate_moments(x1, cov_estimator=e)[1], [[v * 9 / 8]], 1e-7, f"one asset: {e}")
    for tg in ("identity", "constant_correlation"):
        ctx.close(m.shrink_covariance_ledoit_wolf(x1, [[v]], target=tg), [[v]], 1e-9, f"one asset: Ledoit-Wolf {tg}")
    ctx.close(m.shrink_covariance_oas(x1), [[float((x1 ** 2).mean())]], 1e-12, "one asset: OAS")
    ctx.close(m.shrink_mean_james_stein(x1.mean(0), [[v]], 9), x1.mean(0), 1e-12, "one asset: James-Stein")
    lone = pd.DataFrame(x1, columns=["only"])
    ctx.check(list(m.estimate_moments(lone)[1].columns) == ["only"], "one asset labels")
    # identical variances: nothing to shrink
    ctx.close(m.shrink_covariance_ledoit_wolf(np.array([[1.0, 1], [1, -1], [-1, 1], [-1, -1]]), np.eye(2)), np.eye(2), 1e-12, "Ledoit-Wolf of a matrix equal to its target")


FAMILIES = [
    Family("sample moments", gen_sample, run_sample, "all tables over {-1,0,2} up to 6 cells x all probabilities in quarters (sixths); exact rational reference; repetition; labels"),
    Family("definitions", gen_def, run_def, "all tables over {-1,0,2} of shapes 3x2, 2x2, 4x1 plus 11 (119) larger tables; closed forms and defining equations of every estimator"),
    Family("factor count", gen_fact, run_fact, "4-6 assets x every position of one dominant eigenvalue gap x shapes of the spectrum around it x scales"),
    Family("weighted factory", gen_weighted, run_weighted, "3-5 scenarios x every probability in fifths (every fifth in sixths) x estimators fed by sample moments"),
    Family("covariance equivariance", gen_cov, run_cov, "11 (119) tables x 19 estimators x all asset orders, 3 scenario orders, 4 scales, shifts, labels, factory route"),
    Family("mean equivariance", gen_mean, run_mean, "11 (119) tables x 6 estimators x all asset orders, scenario orders, scales, shifts, factory route"),
    Family("psd repair", gen_psd, run_psd, "all symmetric 2x2 over 4 and 3x3 over 3 (4) values x 4 scales"),
    Family("rejection and one asset", gen_bad, run_bad, "malformed inputs, data holes, single-asset inputs"),
]
