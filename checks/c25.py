"""C25: scenario P&L, performance, horizon and drawdown reports against brute-force recomputation."""
import itertools
from fractions import Fraction as Fr
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref
from pyvallocation.utils import performance as pf
from pyvallocation.utils import projection as pj

LEVEL = "model_checking"
RULE = "case = holdings x scenario set x option combination; inside a case every container, label order and probability vector is tried; every reported number is compared with explicit sums over scenarios or with an explicit walk along each wealth path"
ASSUMPTIONS = ["wealth paths are taken from the public path simulation with the same arguments and seed, or fully determined by one-row invariants", "VaR of a discrete distribution with mass exactly on the tail boundary may be either neighbouring loss"]

NM = {1: ["only"], 2: ["zeta", "alpha"], 3: ["zeta", "alpha", "mid"], 4: ["zeta", "alpha", "mid", "beta"]}
WTS = {
    1: [[1.0], [-0.5], [0.0]],
    2: [[0.5, 0.5], [1.5, -0.5], [0.0, 1.0], [0.25, 0.25], [-0.5, -0.25], [2.0, 1.0]],
    3: [[0.5, 0.25, 0.25], [1.0, -0.5, 0.5], [0.0, 0.0, 1.0], [0.125, 0.5, -1.0], [0.0, 0.0, 0.0]],
    4: [[0.25, 0.25, 0.25, 0.25], [1.0, -0.5, 0.25, 0.25], [0.0, 0.5, 0.0, 0.5]],
}


def scen(n, key):
    if n == 1:
        return np.array({"A": [[1], [-2], [3]], "B": [[2], [0], [-1], [1]], "F": [[1], [1]]}[key], float) / 64
    if n == 4:
        return np.array(data.SCEN[4][key], float) / 64
    return np.array(data.SCEN[n][key], float) / 64


def keys(n):
    return ["A", "B", "F"] if n == 1 else sorted(data.SCEN[n])


def pnl_ref(w, R):
    return [sum(float(R[t][i]) * float(w[i]) for i in range(len(w))) for t in range(len(R))]


# ---------------------------------------------------------------- P&L of every container and label order
def gen_pnl(tier):
    for n in (1, 2, 3, 4):
        for k in keys(n):
            for i in range(len(WTS[n])):
                yield [n, k, i]


def run_pnl(case, ctx):
    n, k, i = case
    R = scen(n, k)
    w = WTS[n][i]
    w2 = WTS[n][(i + 1) % len(WTS[n])]
    names, T = NM[n], len(R)
    want, want2 = pnl_ref(w, R), pnl_ref(w2, R)
    idx = list(pd.date_range("2024-01-01", periods=T))
    RF = pd.DataFrame(R, columns=names, index=idx)

    def same(got, exp, msg):
        ctx.step(); ctx.state()
        ctx.close(np.asarray(got, float).reshape(np.shape(exp)), exp, 1e-13, f"{case} {msg}")

    for scn, sn in ((R, "array"), (RF, "frame"), (R.tolist(), "list")):
        same(pf.scenario_pnl(np.array(w), scn), want, f"array on {sn}")
        same(pf.scenario_pnl(list(w), scn), want, f"list on {sn}")
        two = pf.scenario_pnl(np.array([w, w2]).T, scn)
        same(np.asarray(two)[:, 0], want, f"first of two on {sn}")
        same(np.asarray(two)[:, 1], want2, f"second of two on {sn}")
    for o in data.perms(n):
        s = pd.Series([w[j] for j in o], index=[names[j] for j in o], name="holding")
        for label, x in (("series", s), ("mapping", dict(s))):
            got = pf.scenario_pnl(x, RF)
            same(got, want, f"{label} in order {o}")
            ctx.check(list(got.index) == idx, f"{case}: {label}: index {list(got.index)[:2]}")
        ctx.check(pf.scenario_pnl(s, RF).name == "holding", f"{case}: portfolio name lost")
        df = pd.DataFrame({"p": [w2[j] for j in o], "q": [w[j] for j in o]}, index=[names[j] for j in o])
        got = pf.scenario_pnl(df, RF)
        ctx.check(list(got.columns) == ["p", "q"] and list(got.index) == idx, f"{case}: labels {got.columns} {got.index}")
        same(got["q"], want, f"frame in order {o}")
        same(got["p"], want2, f"frame in order {o}, column p")
        one = pf.scenario_pnl(df[["q"]], RF)
        ctx.check(isinstance(one, pd.DataFrame) and list(one.columns) == ["q"] and list(one.index) == idx, f"{case}: one labelled portfolio came back as {type(one).__name__}")
        same(np.asarray(one)[:, 0], want, f"frame of one portfolio in order {o}")
        RP = RF[[names[j] for j in o]]
        same(pf.scenario_pnl(pd.Series(w, index=names), RP), want, f"scenario columns in order {o}")
        same(pf.scenario_pnl(np.array([w[j] for j in o]), RP), want, f"positional on columns in order {o}")
    # inconsistent shapes and labels
    bad = [(np.array(w + [0.1]), RF), (np.array(w + [0.1]), R), (np.array(w), R.ravel()), (pd.Series(w + [0.1], index=names + ["other"]), RF),
           (pd.Series(w, index=names[:-1] + ["other"]), RF), (dict(zip(names[:-1] + ["other"], w)), RF)]
    if n > 1:
        bad += [(np.array(w[:-1]), RF), (pd.Series(w[:-1], index=names[:-1]), RF), (dict(zip(names[:-1], w)), RF), (pd.Series(w, index=[names[0]] * 2 + names[2:]), RF)]
    for x, s in bad:
        ctx.raises(lambda: pf.scenario_pnl(x, s), (ValueError, KeyError), f"{case}: {x} accepted for scenarios {names}")
        ctx.step()
    ctx.out(f"n={n}")


# ---------------------------------------------------------------- performance report
CONF = [0.5, 0.57, 0.6, 0.75, 0.9, 0.95, 0.99]   # 100 * 0.57 falls just below 57


def stats(pnl, p, conf, demean):
    """Exact mean, variance, admissible VaR values, CVaR and effective scenario number."""
    p = [Fr(x) for x in p]
    tot = sum(p)
    p = [x / tot for x in p]
    x = [Fr(float(v)) for v in pnl]
    m = sum(a * b for a, b in zip(p, x))
    var = sum(a * (b - m) ** 2 for a, b in zip(p, x))
    y = [v - m for v in x] if demean else x
    loss = sorted([(-v, a) for v, a in zip(y, p) if a > 0])
    c = Fr(conf).limit_denominator(1000)
    acc, lo, hi = Fr(0), None, None
    for l, a in loss:
        acc += a
        if lo is None and acc >= c:
            lo = l
        if hi is None and acc > c:
            hi = l
    hi = loss[-1][0] if hi is None else hi
    tail = 1 - c
    cvar = ref.cvar_exact(y, p, tail)
    ens = float(np.exp(-sum(float(a) * np.log(float(a)) for a in p if a > 0)))
    return float(m), float(np.sqrt(float(var))), (float(lo), float(hi)), float(cvar), ens


def gen_perf(tier):
    for n in (1, 2, 3):
        for k in keys(n):
            T = len(scen(n, k))
            den = 4 if T <= 4 else 5 if tier == "thorough" else 3
            for i in range(len(WTS[n])):
                yield [n, k, i, den]


def run_perf(case, ctx):
    n, k, i, den = case
    R, w, names = scen(n, k), WTS[n][i], NM[n]
    T = len(R)
    pnl = pnl_ref(w, R)
    idx = [f"s{t}" for t in range(T)]
    RF = pd.DataFrame(R, columns=names, index=idx)
    grid = [None] + [g for g in data.prob_grid(T, den)]
    for gi, g in enumerate(grid):
        p = [Fr(1, T)] * T if g is None else [Fr(int(round(x * den)), den) for x in g]
        pa = None if g is None else np.array([float(x) for x in p])
        for ci, conf in enumerate(CONF):
            if conf not in (0.5, 0.75, 0.95) and gi % 3:
                continue
            for dm in (False, True):
                m, sd, (v0, v1), cv, ens = stats(pnl, p, conf, dm)
                o = data.perms(n)[(gi + ci) % len(data.perms(n))]
                po = list(range(T))[::-1] if (gi + ci) % 2 else [(t + 1) % T for t in range(T)]
                forms = [("arrays", np.array(w), R, pa), ("labels", pd.Series([w[j] for j in o], index=[names[j] for j in o]), RF, None if pa is None else pd.Series(pa[po], index=[idx[t] for t in po])),
                         ("frame", pd.DataFrame({"x": [w[j] for j in o]}, index=[names[j] for j in o]), RF, pa), ("column", np.array(w).reshape(-1, 1), R, None if pa is None else list(pa))]
                for fn, x, s, q in (forms if (gi + ci) % 4 == 0 else [forms[(gi + ci) % 4], forms[1]]):
                    r = pf.performance_report(x, s, probabilities=q, confidence=conf, demean=dm)
                    ctx.step(); ctx.state()
                    pct = int(round(conf * 100))
                    tag = f"{case} p={g} conf={conf} demean={dm} {fn}"
                    if not ctx.check({"mean", "stdev", f"VaR{pct}", f"CVaR{pct}", "ENS"} <= set(r.index), f"{tag}: entries {list(r.index)}"):
                        continue
                    ctx.close(r["mean"], m, 1e-12, f"{tag} mean")
                    ctx.close(r["stdev"], sd, 1e-8, f"{tag} stdev")
                    ctx.close(r[f"CVaR{pct}"], cv, 1e-10, f"{tag} CVaR")
                    ctx.close(r["ENS"], ens, 1e-9, f"{tag} ENS")
                    v = r[f"VaR{pct}"]
                    ctx.check(min(v0, v1) - 1e-10 <= v <= max(v0, v1) + 1e-10, lambda: f"{tag} VaR {v} not in [{v0}, {v1}]")
    r = lambda **kw: (lambda: pf.performance_report(kw.pop("w", np.array(w)), kw.pop("s", R), **kw))
    bad = [dict(confidence=0.0), dict(confidence=1.0), dict(confidence=-0.1), dict(confidence=1.5), dict(confidence=float("nan")), dict(probabilities=np.full(T, -1.0 / T)), dict(probabilities=np.ones(T + 1) / (T + 1)),
           dict(probabilities=np.full(T, np.nan)), dict(probabilities=np.zeros(T)), dict(w=np.array(w + [0.0])), dict(w=np.full(n, np.nan)), dict(w=np.full(n, np.inf)), dict(w=np.array([w, w]).T),
           dict(w=pd.Series(w, index=names[:-1] + ["other"]), s=RF), dict(s=R.ravel())]
    for kw in bad:
        ctx.step()
        ctx.raises(r(**kw), Exception, f"{case}: accepted {kw}")
    ctx.out(f"n={n}")


# ---------------------------------------------------------------- drawdowns
def worst_drop(wealth):
    """Largest relative fall from a running peak along one path that starts at 1."""
    peak, worst = 1.0, 0.0
    for v in wealth:
        peak = max(peak, v)
        worst = max(worst, (peak - v) / peak)
    return worst


def quantile(xs, q):
    xs = sorted(xs)
    h = (len(xs) - 1) * q
    lo = int(np.floor(h))
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (h - lo) * (xs[hi] - xs[lo])


def dd_check(ctx, r, dds, conf, tag):
    pct = int(round(conf * 100))
    ctx.state()
    if not ctx.check({"max_dd_mean", "max_dd_median", f"max_dd_{pct}", "max_dd_worst"} <= set(r.index), f"{tag}: entries {list(r.index)}"):
        return
    ctx.close(r["max_dd_mean"], sum(dds) / len(dds), 1e-11, f"{tag} mean")
    ctx.close(r["max_dd_worst"], max(dds), 1e-11, f"{tag} worst")
    if pct != 50:
        ctx.close(r["max_dd_median"], quantile(dds, 0.5), 1e-11, f"{tag} median")
    ctx.close(r[f"max_dd_{pct}"], quantile(dds, conf), 1e-11, f"{tag} quantile")


LEVELS = [-0.5, -0.25, 0.0, 0.25, 0.5]


def gen_path(tier):
    for h in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for first in LEVELS:
            yield [h, first]


def run_path(case, ctx):
    """One-row invariants and a table repricer produce every wealth path on a grid, whatever the random draws."""
    h, first = case
    for rest in itertools.product(LEVELS, repeat=h - 1):
        path = (first,) + rest
        table = np.array(path)
        look = lambda d: table[np.clip(np.rint(np.asarray(d, float)).astype(int) - 1, 0, h - 1)]
        for wt, conf in (([1.0], 0.95), ([0.5], 0.5), ([-1.0], 0.9)):
            if wt[0] != 1.0 and sum(map(abs, rest)) * 4 % 3:
                continue
            r = pf.drawdown_quantile(np.array(wt), np.array([[1.0]]), h, n_paths=3, reprice=look, seed=1, confidence=conf)
            ctx.step()
            d = worst_drop([1.0 + wt[0] * v for v in path])
            dd_check(ctx, r, [d] * 3, conf, f"path {path} holding {wt[0]}")
    # two assets whose tables differ: portfolio wealth is formed before drawdowns
    for a in itertools.islice(itertools.product(LEVELS, repeat=h), 0, None, 1 if h <= 3 else 7):
        b = tuple(LEVELS[(LEVELS.index(x) * 3 + t) % 5] for t, x in enumerate(a))
        tab = np.array([a, b]).T
        look = lambda d: tab[np.clip(np.rint(np.asarray(d, float)[:, 0]).astype(int) - 1, 0, h - 1)]
        for wt in ([0.5, 0.5], [1.5, -0.5], [0.25, 0.0]):
            wealth = [1.0 + wt[0] * x + wt[1] * y for x, y in zip(a, b)]
            if min(wealth) <= 0:
                continue
            r = pf.drawdown_quantile(np.array(wt), np.array([[1.0, 1.0]]), h, n_paths=2, reprice=look, seed=0)
            ctx.step()
            dd_check(ctx, r, [worst_drop(wealth)] * 2, 0.95, f"paths {a} {b} holdings {wt}")
    ctx.out(f"horizon {h}")


def gen_dd(tier):
    for n in (1, 2, 3):
        for k in keys(n):
            for h in (1, 2, 3, 5):
                yield [n, k, h]


def run_dd(case, ctx):
    n, k, h = case
    R, names = scen(n, k) * 4, NM[n]
    T = len(R)
    idx = [f"s{t}" for t in range(T)]
    RF = pd.DataFrame(R, columns=names, index=idx)
    grid = [None] + list(data.prob_grid(T, 2))[::3]
    reprs = [None, pj.reprice_exp, lambda d: np.asarray(d) * 0.5]
    for i, w in enumerate(WTS[n]):
        for gi, g in enumerate(grid):
            for ri, rp in enumerate(reprs):
                seed, conf, m = 7 * gi + ri, CONF[(i + gi + ri) % len(CONF)], (1, 4, 11)[(i + ri) % 3]
                p = None if g is None else np.asarray(g, float)
                paths = np.asarray(pj.simulate_paths(R, horizon=h, n_paths=m, p=p, reprice=pj.reprice_exp if rp is None else rp, seed=seed))
                dds = []
                for q in range(m):
                    wealth = [1.0 + sum(float(paths[q, t, j]) * w[j] for j in range(n)) for t in range(h)]
                    dds.append(worst_drop(wealth))
                o = data.perms(n)[(gi + ri) % len(data.perms(n))]
                po = [(t + 1) % T for t in range(T)]
                forms = [(np.array(w), R, p), (pd.Series([w[j] for j in o], index=[names[j] for j in o]), RF, None if p is None else pd.Series(p[po], index=[idx[t] for t in po])), (list(w), RF, p)]
                if n == 1:
                    forms.append((np.array(w), R.ravel(), p))
                for fi, (x, s, pp) in enumerate(forms):
                    kw = {} if rp is None else dict(reprice=rp)
                    r = pf.drawdown_quantile(x, s, h, confidence=conf, n_paths=m, p=pp, seed=seed, **kw)
                    ctx.step()
                    dd_check(ctx, r, dds, conf, f"{case} w={w} p={g} reprice {ri} form {fi} conf {conf}")
    bad = pd.Series(WTS[n][0], index=names[:-1] + ["other"])
    ctx.raises(lambda: pf.drawdown_quantile(bad, RF, h, n_paths=2, seed=0), Exception, f"{case}: labels {list(bad.index)} accepted")
    ctx.raises(lambda: pf.drawdown_quantile(np.array(WTS[n][0] + [1.0]), R, h, n_paths=2, seed=0), Exception, f"{case}: {n + 1} weights accepted")
    ctx.out(f"n={n}")


# ---------------------------------------------------------------- horizon report
HORIZONS = [[1], [2, 1], [4, 13], [3, 52, 26], [4, 13, 26, 52], [5, 4, 1]]
LABEL = {4: "1m", 13: "3m", 26: "6m", 52: "1y"}


def gen_hor(tier):
    for n in (1, 2, 3):
        for k in keys(n):
            for hs in HORIZONS:
                yield [n, k, hs]


def run_hor(case, ctx):
    n, k, hs = case
    R, names = scen(n, k) / 4, NM[n]
    T = len(R)
    idx = [f"s{t}" for t in range(T)]
    RF = pd.DataFrame(R, columns=names, index=idx)
    onehot = [np.eye(T)[t] for t in range(T)]
    for i, w in enumerate(WTS[n]):
        for ri, rp in enumerate((None, lambda d: d * 0.5)):
            o = data.perms(n)[(i + ri) % len(data.perms(n))]
            S = pd.Series([w[j] for j in o], index=[names[j] for j in o])
            kw = {} if rp is None else dict(reprice=rp)
            f = (lambda d: np.exp(d) - 1.0) if rp is None else rp
            # a certain scenario: the report is known in closed form
            for t, p in enumerate(onehot):
                conf = CONF[(i + t) % len(CONF)]
                pct = int(round(conf * 100))
                rep = pf.horizon_report(S, RF, horizons=hs, n_simulations=4, p=p, confidence=conf, seed=3, **kw)
                ctx.step(); ctx.state()
                if not ctx.check([LABEL.get(h, f"{h}w") for h in hs] == list(rep.index), f"{case}: rows {list(rep.index)}"):
                    continue
                for h, lab in zip(hs, rep.index):
                    v = float(np.dot(f(h * R[t]), w))
                    row = rep.loc[lab]
                    ctx.close([row["mean"], row["stdev"], row[f"VaR{pct}"], row[f"CVaR{pct}"]], [v, 0.0, -v, -v], 1e-7, f"{case} w={w} reprice {ri} certain scenario {t} horizon {h}")
                    ctx.close(row["ENS"], 4.0, 1e-9, f"{case} ENS of 4 equally likely simulations")
            # uneven probabilities: recomputed from the public projection with the documented seeds
            g = np.arange(1, T + 1) / (T * (T + 1) / 2)
            po = [(t + 1) % T for t in range(T)]
            for x, s, p in ((np.array(w), R, g), (S, RF, pd.Series(g[po], index=[idx[t] for t in po])), (S, RF, None)):
                m = (3, 8)[(i + ri) % 2]
                sd0 = (11, 0)[i % 2]
                rep = pf.horizon_report(x, s, horizons=hs, n_simulations=m, p=p, seed=sd0, **kw)
                ctx.step(); ctx.state()
                for j, h in enumerate(hs):
                    sc = np.asarray(pj.project_scenarios(R, investment_horizon=h, p=None if p is None else g, n_simulations=m, reprice=pj.reprice_exp if rp is None else rp, seed=sd0 + j), float)
                    mm, sd, (v0, v1), cv, ens = stats(pnl_ref(w, sc), [Fr(1, m)] * m, 0.95, False)
                    row = rep.loc[LABEL.get(h, f"{h}w")]
                    ctx.close([row["mean"], row["stdev"], row["CVaR95"], row["ENS"]], [mm, sd, cv, ens], 1e-8, f"{case} w={w} reprice {ri} horizon {h}")
                    ctx.check(v0 - 1e-9 <= row["VaR95"] <= v1 + 1e-9, lambda: f"{case} VaR {row['VaR95']} not in [{v0}, {v1}]")
    ctx.out(f"n={n}")


FAMILIES = [
    Family("pnl", gen_pnl, run_pnl, "every scenario set x holdings x container x label order of 1-4 assets, and single-fault invalid inputs"),
    Family("performance", gen_perf, run_perf, "every scenario set x holdings x probability grid x confidence x demeaning x container", chunk=2),
    Family("paths", gen_path, run_path, "every wealth path of up to 4 (5) steps over five levels", chunk=1),
    Family("drawdowns", gen_dd, run_dd, "every scenario set x horizon x holdings x probabilities x repricing x container against a walk along each simulated path"),
    Family("horizons", gen_hor, run_hor, "every scenario set x horizon list x holdings x repricing: certain scenarios in closed form, others recomputed"),
]
