"""C18: horizon projection preserves the distributional identities."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc.data import COV, MU
from mc.ref import simplex_lattice
from pyvallocation.utils.projection import (project_mean_covariance, log2simple, simple2log, convert_scenarios_compound_to_simple,
                                            convert_scenarios_simple_to_compound, project_scenarios, project_risk_drivers, simulate_paths, reprice_exp)

LEVEL = "model_checking"
RULE = "case = one moment pair (all horizons, orders and labellings applied to it) or one bootstrap configuration (scenario count x probability vector x horizon; all seeds of the bound applied to it)"
ASSUMPTIONS = ["draw frequencies are compared with the supplied probabilities at eight standard deviations on fixed seeds; support, joint rows and sums are exact"]
LAB = {1: ["x"], 2: ["b", "a"], 3: ["b", "a", "c"], 4: ["d", "b", "a", "c"]}
SIG = {1: {"one": [[2.0]], "zero": [[0.0]]}, 2: COV[2], 3: COV[3], 4: COV[4]}
MUS = {1: {"u": [0.5], "n": [-1.0]}, 2: MU[2], 3: MU[3], 4: MU[4]}


# ---------------------------------------------------------------- moments
def gen_mom(tier):
    for n in SIG:
        for s in SIG[n]:
            for u in MUS[n]:
                yield {"n": n, "S": s, "mu": u}


def run_mom(c, ctx):
    n = c["n"]
    lab = LAB[n]
    for scale in (0.5, 0.04, 1e-4):
        S, mu = np.array(SIG[n][c["S"]], float) * scale * 0.25, np.array(MUS[n][c["mu"]], float) * math.sqrt(scale)
        ts = float(np.max(np.abs(S))) or 1.0
        for h in (1, 12, 252, 0.25, 2.5):
            a, b = project_mean_covariance(mu, S, h)
            ctx.close(a, mu * h, 1e-14, f"mean over {h}")
            ctx.close(b, S * h, 1e-14, f"covariance over {h}")
            for g in (1, 3, 0.5):
                ctx.close(np.asarray(project_mean_covariance(a, b, g)[1]), S * (h * g), 1e-13, f"horizon {h} then {g}")
                ctx.close(project_mean_covariance(a, b, g)[0], mu * (h * g), 1e-13, f"horizon {h} then {g}")
            ctx.step(7)
            ctx.state()
        # lognormal identities, from first principles: E[e^x], Cov(e^x, e^y)
        m1 = [math.exp(mu[i] + S[i, i] / 2) for i in range(n)]
        mr = [math.expm1(mu[i] + S[i, i] / 2) for i in range(n)]
        Sr = [[m1[i] * m1[j] * math.expm1(S[i, j]) for j in range(n)] for i in range(n)]
        keep = (mu.copy(), S.copy())
        a, b = log2simple(mu, S)
        ctx.step()
        ctx.state()
        ctx.close(a, mr, 1e-12, "mean of simple returns")
        ctx.close(np.asarray(b) / ts, np.array(Sr) / ts, 1e-11, "covariance of simple returns")
        a2, b2 = simple2log(np.array(mr), np.array(Sr))
        ctx.close(a2, mu, 1e-11, "mean of log returns")
        ctx.close(np.asarray(b2) / ts, S / ts, 1e-10, "covariance of log returns")
        a3, b3 = simple2log(a, b)
        ctx.close(a3, mu, 1e-11, "log -> simple -> log mean")
        ctx.close(np.asarray(b3) / ts, S / ts, 1e-10, "log -> simple -> log covariance")
        a4, b4 = log2simple(a2, b2)
        ctx.close(a4, mr, 1e-11, "simple -> log -> simple mean")
        ctx.close(np.asarray(b4) / ts, np.array(Sr) / ts, 1e-10, "simple -> log -> simple covariance")
        ctx.step(3)
        ctx.check(np.array_equal(mu, keep[0]) and np.array_equal(S, keep[1]), "inputs modified")
        ev = np.linalg.eigvalsh(np.asarray(b))
        ctx.check(ev[0] >= -1e-9 * max(ev[-1], 1e-12), "simple covariance not positive semidefinite")
        # labels and orders
        V, D = pd.Series(mu, index=lab, name="m"), pd.DataFrame(S, index=lab, columns=lab)
        W = pd.DataFrame(Sr, index=lab, columns=lab)
        Q = pd.Series(mr, index=lab)
        for p in itertools.permutations(range(n)):
            o = [lab[i] for i in p]
            for vo, co in ((o, o), (lab, o), (o, lab)):
                for fn, vv, dd, wv, wd in ((log2simple, V, D, Q, W), (simple2log, Q, W, V, D)):
                    r, s = fn(vv[vo], dd.loc[co, co])
                    ctx.step()
                    ctx.state()
                    ctx.check(isinstance(r, pd.Series) and list(r.index) == vo and isinstance(s, pd.DataFrame) and list(s.index) == co == list(s.columns), f"{fn.__name__}: labels for {vo}/{co}")
                    ctx.close(r[lab], wv[lab].to_numpy(), 1e-10, f"{fn.__name__}: mean ordered {vo}, covariance ordered {co}")
                    ctx.close(s.loc[lab, lab].to_numpy() / ts, wd.loc[lab, lab].to_numpy() / ts, 1e-10, f"{fn.__name__}: covariance, orders {vo}/{co}")
            a, b = project_mean_covariance(V[o], D.loc[o, o], 12)
            ctx.check(list(a.index) == o == list(b.index) == list(b.columns), "labels of projected moments")
            ctx.close(a[lab], mu * 12, 1e-13, "projected labelled mean")
        if n > 1:
            for fn in (log2simple, simple2log):
                ctx.raises(lambda: fn(V, D.rename(index={lab[0]: "z"}, columns={lab[0]: "z"})), ValueError, f"{fn.__name__}: foreign labels")
        ctx.out("ok")


def gen_conv(tier):
    v = (-0.75, -0.1, 0.0, 1e-9, 0.02, 0.5, 3.0)
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for a in itertools.product(v, repeat=n):
            yield {"x": a}


def run_conv(c, ctx):
    for shape in ("vec", "mat"):
        x = np.array([c["x"]] * 2 if shape == "mat" else c["x"], float)
        ctx.state()
        ctx.step(4)
        s = convert_scenarios_compound_to_simple(x)
        ctx.close(s, np.expm1(x), 1e-14, "compound to simple")
        ctx.close(convert_scenarios_simple_to_compound(x), np.log1p(x), 1e-14, "simple to compound")
        ctx.close(convert_scenarios_simple_to_compound(s), x, 1e-13, "round trip")
        ctx.close(convert_scenarios_compound_to_simple(convert_scenarios_simple_to_compound(x)), x, 1e-13, "round trip")
        for bad in (-1.0, -1.5):
            y = x.copy()
            y[..., -1] = bad
            ctx.raises(lambda: convert_scenarios_simple_to_compound(y), ValueError, f"simple return {bad}")
    if len(c["x"]) == 2:
        S = [[0.04, 0.01], [0.01, 0.09]]
        ctx.raises(lambda: simple2log([-1.0, c["x"][0]], S), ValueError, "mean simple return of -1")
        ctx.raises(lambda: simple2log([c["x"][0], -1.2], S), ValueError, "mean simple return below -1")
        ctx.raises(lambda: simple2log([0.0, 0.0], [[2.0, -1.2], [-1.2, 2.0]]), ValueError, "covariance no log-normal has")


# ---------------------------------------------------------------- bootstrap
BASE = 1 << 6


def rows(T):
    """Rows whose sums identify the multiset of drawn rows; the second and third columns are redundant codes of the row."""
    code = [float(BASE ** i) for i in range(T)]
    return np.array([[c, -3.0 * c, 7.0 * i + 1.0] for i, c in enumerate(code)])


def decode(v, T):
    out, x = [], int(round(v))
    for _ in range(T):
        out.append(x % BASE)
        x //= BASE
    return out if x == 0 else None


def gen_boot(tier):
    for T in (1, 2, 3, 4):
        ps = [None] + [list(map(float, w)) for w in simplex_lattice(T, 4 if T < 4 or tier == "thorough" else 2)]
        for p in ps:
            for h in (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7, 12):
                yield {"T": T, "p": None if p is None else list(p), "h": h, "seeds": 3 if tier == "quick" else 12}


def run_boot(c, ctx):
    T, h, p = c["T"], c["h"], c["p"]
    R = rows(T)
    w = np.full(T, 1 / T) if p is None else np.array(p, float)
    lab = ["c", "a", "b"]
    idx = ["t%d" % i for i in range(T)]
    D = pd.DataFrame(R, columns=lab, index=idx)
    keep = D.copy(deep=True)
    n = 1500
    prev = None
    for seed in range(c["seeds"]):
        g = project_scenarios(R, investment_horizon=h, p=p, n_simulations=n, seed=seed)
        ctx.step()
        ctx.state()
        if not ctx.check(isinstance(g, np.ndarray) and g.shape == (n, 3), "shape of projected scenarios"):
            return
        k = [decode(x, T) for x in g[:, 0]]
        if not ctx.check(all(x is not None and sum(x) == h for x in k), "a projected scenario is not the sum of h scenario rows"):
            return
        k = np.array(k)
        ctx.check(bool(np.all(g[:, 1] == -3.0 * g[:, 0])) and bool(np.allclose(g[:, 2], k @ (7.0 * np.arange(T) + 1.0))), "joint rows broken up")
        ctx.check(bool(np.all(k[:, w == 0] == 0)), "a scenario of zero probability was drawn")
        f = k.sum(0) / (n * h)
        sd = np.sqrt(w * (1 - w) / (n * h))
        ctx.check(bool(np.all(np.abs(f - w) <= 8 * sd + 1e-12)), f"draw frequencies {f} for probabilities {w}")
        # drawn with replacement and independently: multinomial pair moments
        if h > 1 and T > 1:
            for i in range(T):
                e2 = h * (h - 1) * w[i] ** 2
                got = float((k[:, i] * (k[:, i] - 1)).mean())
                s2 = float((k[:, i] * (k[:, i] - 1.0)).std()) / math.sqrt(n)
                ctx.check(abs(got - e2) <= 8 * s2 + 8 * h * h * math.sqrt(max(w[i], 1e-12) ** 2 / n) * 0.5 + 1e-12, f"pairs of draws of scenario {i}: {got} expected {e2}")
        again = project_scenarios(R, investment_horizon=h, p=p, n_simulations=n, seed=seed)
        ctx.check(np.array_equal(g, again), "same seed, different result")
        ctx.check(np.array_equal(project_risk_drivers(R, investment_horizon=h, p=p, n_simulations=n, seed=seed), g), "alias differs")
        if prev is not None and np.count_nonzero(w) > 1:
            ctx.check(not np.array_equal(prev, g), "different seeds give the same draws")
        prev = g
        for P in ([p] if p is None else [p, np.array(p), pd.Series(p, index=idx), pd.Series(p, index=idx)[::-1], pd.Series(p), [x * 5 for x in p]]):
            L = project_scenarios(D, investment_horizon=h, p=P, n_simulations=n, seed=seed)
            ctx.step()
            ctx.check(isinstance(L, pd.DataFrame) and list(L.columns) == lab and len(L) == n, "labels of projected scenarios")
            ctx.check(np.array_equal(L.to_numpy(), g), f"labelled projection differs (p as {type(P).__name__})")
        s1 = project_scenarios(D["a"], investment_horizon=h, p=p, n_simulations=n, seed=seed)
        ctx.check(isinstance(s1, pd.Series) and s1.name == "a" and np.array_equal(s1.to_numpy(), g[:, 1]), "series projection")
        ctx.check(np.array_equal(project_scenarios(R[:, 0], investment_horizon=h, p=p, n_simulations=n, seed=seed), g[:, 0]), "vector projection")
        sm = R * 1e-4 / BASE ** (T - 1)
        q = project_scenarios(sm, investment_horizon=h, p=p, n_simulations=n, seed=seed)
        ctx.close(project_scenarios(sm, investment_horizon=h, p=p, n_simulations=n, seed=seed, reprice=reprice_exp), np.expm1(q), 1e-12, "repriced projection")
        ctx.close(project_scenarios(sm, investment_horizon=h, p=p, n_simulations=n, seed=seed, reprice=lambda x: 2 * x + 1), 2 * q + 1, 1e-13, "repriced projection")
        ctx.step(6)
        # paths
        m = 400
        P3 = simulate_paths(R, horizon=h, n_paths=m, p=p, seed=seed)
        ctx.step()
        ctx.state()
        if not ctx.check(isinstance(P3, np.ndarray) and P3.shape == (m, h, 3), "shape of simulated paths"):
            return
        inc = np.diff(np.concatenate([np.zeros((m, 1, 3)), P3], axis=1), axis=1)
        code = [[decode(x, T) for x in row] for row in inc[:, :, 0]]
        if not ctx.check(all(x is not None and sum(x) == 1 for row in code for x in row), "a path step is not one scenario row"):
            return
        d = np.array([[x.index(1) for x in row] for row in code])
        ctx.check(bool(np.allclose(inc, R[d])), "joint rows broken up along paths")
        ctx.check(bool(np.all(w[d] > 0)), "a path uses a scenario of zero probability")
        for t in range(h):
            f = np.bincount(d[:, t], minlength=T) / m
            ctx.check(bool(np.all(np.abs(f - w) <= 8 * np.sqrt(w * (1 - w) / m) + 1e-12)), f"step {t}: frequencies {f} for {w}")
        if h > 1:
            for t in range(h - 1):
                f = np.zeros((T, T))
                np.add.at(f, (d[:, t], d[:, t + 1]), 1.0 / m)
                ww = np.outer(w, w)
                ctx.check(bool(np.all(np.abs(f - ww) <= 8 * np.sqrt(ww * (1 - ww) / m) + 1e-12)), f"steps {t} and {t + 1} are dependent")
        ctx.check(np.array_equal(P3, simulate_paths(R, horizon=h, n_paths=m, p=p, seed=seed)), "same seed, different paths")
        for P in ([p] if p is None else [p, pd.Series(p, index=idx)[::-1], pd.Series(p)]):
            ctx.check(np.array_equal(P3, simulate_paths(D, horizon=h, n_paths=m, p=P, seed=seed)), "labelled paths differ")
        v = simulate_paths(R[:, 0], horizon=h, n_paths=m, p=p, seed=seed)
        ctx.check(v.shape == (m, h, 1) and np.array_equal(v[..., 0], P3[..., 0]), "vector paths")
        rp = simulate_paths(sm, horizon=h, n_paths=m, p=p, seed=seed, reprice=reprice_exp)
        ctx.close(rp, np.expm1(np.cumsum(sm[d], axis=1)), 1e-11, "repriced paths")
        rp = simulate_paths(R.astype(int), horizon=h, n_paths=m, p=p, seed=seed, reprice=lambda x: x[:, 0] / 3.0)
        ctx.close(rp[..., 0], P3[..., 0] / 3.0, 1e-12, "paths repriced to one instrument")
        ctx.step(6)
        ctx.out(f"support {np.count_nonzero(w)}")
    ctx.check(D.equals(keep) and np.array_equal(R, rows(T)), "scenarios modified")


def gen_bad(tier):
    yield {"bad": 1}


def run_bad(c, ctx):
    R = rows(3)
    D = pd.DataFrame(R, columns=list("abc"), index=["x", "y", "z"])
    nan = float("nan")
    for p in ([0.5, 0.5], [1.0, -0.5, 0.5], [0, 0, 0], [nan, 0.5, 0.5], [float("inf"), 0, 0], [0.25] * 4):
        ctx.state()
        ctx.raises(lambda: project_scenarios(R, p=p, n_simulations=5), ValueError, f"p={p}")
        ctx.raises(lambda: simulate_paths(R, p=p, n_paths=5), ValueError, f"paths p={p}")
    for f, kw in ((project_scenarios, dict(n_simulations=5)), (simulate_paths, dict(n_paths=5))):
        ctx.raises(lambda: f(D, p=pd.Series([0.2, 0.3, 0.5], index=["x", "y", "q"]), **kw), ValueError, "foreign probability labels")
        ctx.raises(lambda: f(np.zeros((2, 2, 2)), **kw), ValueError, "three-dimensional scenarios")
    for h in (0, -1):
        ctx.raises(lambda: project_scenarios(R, investment_horizon=h), ValueError, f"horizon {h}")
    for n in (0, -2):
        ctx.raises(lambda: project_scenarios(R, n_simulations=n), ValueError, f"{n} simulations")
    # defaults: two steps, uniform, 1000 simulations
    g = project_scenarios(R, seed=1)
    ctx.check(g.shape == (1000, 3) and all(sum(decode(x, 3)) == 2 for x in g[:, 0]), "default horizon and size")
    ctx.check(simulate_paths(R, seed=1).shape == (1000, 2, 3), "default path layout")


FAMILIES = [
    Family("moment identities", gen_mom, run_mom, "n in {1,2,3,4}; all covariances and means of the alphabet x 3 scales x 5 horizons (x 3 more); all label orders of mean and covariance independently"),
    Family("return conversion", gen_conv, run_conv, "all vectors over 7 returns"),
    Family("bootstrap", gen_boot, run_boot, "T in 1..4; all probability vectors in quarters (halves for T=4); 4 (7) horizons; 3 (12) seeds; 1500 simulations and 400 paths decoded row by row"),
    Family("rejection", gen_bad, run_bad, "malformed probabilities, horizons and shapes"),
]
