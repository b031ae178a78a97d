"""C09: frontier selectors against exhaustive search over the columns."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, entries as E
from pyvallocation.portfolioapi import PortfolioFrontier

LEVEL = "model_checking"
RULE = "case = one frontier (all return/risk patterns over a small alphabet); every selector with every threshold of a grid is explored inside"
ASSUMPTIONS = ["among exactly tied columns any tied column is accepted", "percentile requests equidistant from two ranks may resolve to either"]
RET = [-0.02, 0.01, 0.03]
RISK = [0.0, 0.05, 0.2]
NEG = [-0.1, 0.05, 0.2]
ALT = [[0.3, 0.1, 0.2, 0.1], [0.05, 0.05, 0.01, 0.4], [-0.2, 0.0, 0.1, -0.3]]


def gen(tier):
    for M in (1, 2, 3, 4):
        for a in itertools.product(range(3), repeat=M):
            for b in itertools.product(range(3), repeat=M):
                if M == 4 and tier == "quick" and (len(set(a)) < 3 or a not in (tuple(sorted(a)), tuple(sorted(a))[::-1])):
                    continue
                yield [list(a), list(b)]


NAN = float("nan")


def pick(ctx, what, got, cols, W, names, ret, risk, label=None):
    """got must be one of the admissible columns with that column's own data."""
    ctx.state()
    w, r, k = got
    ctx.check(isinstance(w, pd.Series), f"{what}: weights are {type(w)}")
    idx = [j for j in range(W.shape[1]) if np.array_equal(np.asarray(w, float), W[:, j])]
    if not ctx.check(len(idx) == 1 and idx[0] in cols, lambda: f"{what}: returned weights of column {idx}, expected one of {cols}"):
        return
    j = idx[0]
    ctx.check(list(w.index) == (names if names is not None else list(range(W.shape[0]))), f"{what}: labels {list(w.index)}")
    ctx.check(float(r) == float(ret[j]) and float(k) == float(risk[j]), lambda: f"{what}: return/risk {r}/{k} are not those of column {j}: {ret[j]}/{risk[j]}")


def explore(ctx, what, f, W, ret, risks, names, thr=None):
    M = len(ret)
    before = (W.copy(), ret.copy(), {k: v.copy() for k, v in risks.items()})
    prim = f.risk_measure
    for lab in [None] + list(risks):
        rk = risks[prim if lab is None else lab]
        ctx.step(2)
        pick(ctx, f"{what} min_risk({lab})", f.min_risk(risk_label=lab), [j for j in range(M) if rk[j] == rk.min()], W, names, ret, rk)
        for t in sorted(set(rk) | {x + 1e-9 for x in rk} | {x - 1e-9 for x in rk} | {-1.0, 0.0, 0.1, 5.0}):
            ok = [j for j in range(M) if rk[j] <= t]
            ctx.step(2)
            if not ok:
                ctx.raises(lambda: f.at_risk(t, risk_label=lab), Exception, f"{what} at_risk({t},{lab})")
            else:
                best = max(ret[j] for j in ok)
                pick(ctx, f"{what} at_risk({t},{lab})", f.at_risk(t, risk_label=lab), [j for j in ok if ret[j] == best], W, names, ret, rk)
            d = np.abs(rk - t)
            pick(ctx, f"{what} closest_risk({t},{lab})", f.closest_risk(t, risk_label=lab), [j for j in range(M) if d[j] <= d.min() + 1e-15], W, names, ret, rk)
        for t in sorted(set(ret) | {x + 1e-9 for x in ret} | {x - 1e-9 for x in ret} | {-5.0, 0.0, 5.0}):
            ok = [j for j in range(M) if ret[j] >= t]
            ctx.step()
            if not ok:
                ctx.raises(lambda: f.at_return(t, risk_label=lab), Exception, f"{what} at_return({t},{lab})")
            else:
                best = min(rk[j] for j in ok)
                pick(ctx, f"{what} at_return({t},{lab})", f.at_return(t, risk_label=lab), [j for j in ok if rk[j] == best], W, names, ret, rk)
        pc = np.asarray(f.risk_percentiles(lab), float)
        ctx.close(np.sort(pc), np.arange(M) / max(M - 1, 1), 1e-12, f"{what} percentiles({lab})")
        for i in range(M):
            for j in range(M):
                if rk[i] < rk[j]:
                    ctx.check(pc[i] < pc[j], f"{what} percentiles({lab}) {pc} not ordered as risks {rk}")
        srt = np.sort(rk)
        for q in (0, 0.0, 0.1, 0.25, 1 / 3, 0.49, 0.5, 0.51, 0.75, 0.9, 1.0, 1, 2.0, 25, 33, 50, 60.0, 75, 99, 100):
            qq = q / 100 if q > 1 else q
            ctx.step(2)
            grid = np.arange(M) / max(M - 1, 1)
            near = [i for i in range(M) if abs(grid[i] - qq) <= np.abs(grid - qq).min() + 1e-12]
            vals = {float(srt[i]) for i in near}
            pick(ctx, f"{what} at_percentile({q},{lab})", f.at_percentile(q, risk_label=lab), [j for j in range(M) if float(rk[j]) in vals], W, names, ret, rk)
            i = f.index_at_risk_percentile(q, risk_label=lab)
            ctx.check(0 <= i < M and float(rk[i]) in vals, f"{what} index_at_risk_percentile({q},{lab}) = {i}")
        for q in (-0.1, -1, 100.5, 1e9, NAN, np.inf):
            ctx.raises(lambda: f.at_percentile(q, risk_label=lab), ValueError, f"{what} at_percentile({q})")
            ctx.raises(lambda: f.index_at_risk_percentile(q, risk_label=lab), ValueError, f"{what} index_at_risk_percentile({q})")
        for call, nm in ((f.at_risk, "at_risk"), (f.at_return, "at_return"), (f.closest_risk, "closest_risk")):
            ctx.raises(lambda: call(NAN, risk_label=lab), Exception, f"{what} {nm}(NaN)")
    rk = risks[prim]
    ctx.step(2)
    pick(ctx, f"{what} max_return", f.max_return(), [j for j in range(M) if ret[j] == ret.max()], W, names, ret, rk)
    for rf in (-0.05, 0.0, 0.01, 0.02, 0.5):
        ctx.step()
        if np.all(np.abs(rk) <= 1e-8):
            ctx.raises(lambda: f.tangency(rf), Exception, f"{what} tangency({rf}) of riskless frontier")
            continue
        sh = {j: (ret[j] - rf) / rk[j] for j in range(M) if rk[j] != 0}
        best = max(sh.values())
        pick(ctx, f"{what} tangency({rf})", f.tangency(rf), [j for j in sh if sh[j] >= best - 1e-12 * (1 + abs(best))], W, names, ret, rk)
    ctx.raises(lambda: f.tangency(NAN), Exception, f"{what} tangency(NaN)")
    for bad in ("nope", ""):
        for call in (f.min_risk, lambda **k: f.at_risk(1.0, **k), lambda **k: f.at_return(-9.0, **k), lambda **k: f.closest_risk(0.1, **k), lambda **k: f.at_percentile(0.5, **k)):
            ctx.raises(lambda: call(risk_label=bad), Exception, f"{what}: unknown risk label {bad!r}")
    ctx.check(list(f.available_risk_measures()) == list(risks), f"{what}: risk labels {f.available_risk_measures()}")
    # conversions
    idx = names if names is not None else list(range(W.shape[0]))
    sels = [None, [0], [M - 1], list(range(M))[::-1], [0] * 2, [], (M - 1, 0), range(M), np.arange(M)]
    for s in sels:
        cols = list(range(M)) if s is None else list(s)
        for call, labs in ((lambda: f.to_frame(s), cols), (lambda: f.to_frame(columns=s, column_labels=[f"p{i}" for i in range(len(cols))]), [f"p{i}" for i in range(len(cols))]),
                           (lambda: f.to_samples(s), cols)):
            ctx.step()
            df = call()
            ctx.check(isinstance(df, pd.DataFrame) and list(df.columns) == labs and list(df.index) == idx and np.array_equal(df.to_numpy(), W[:, cols]), f"{what}: frame({s}) = {df}")
        m, nm = f.to_samples(s, as_frame=False)
        ctx.check(np.array_equal(m, W[:, cols]) and nm == names, f"{what}: samples({s})")
        m *= 7.0
        ctx.raises(lambda: f.to_frame(s, column_labels=["x"] * (len(cols) + 1)), ValueError, f"{what}: wrong label count")
    for s in ([M], [-M - 1]):
        ctx.raises(lambda: f.to_frame(s), Exception, f"{what}: column out of range")
    ctx.check(np.array_equal(f.weights, before[0]) and np.array_equal(f.returns, before[1]) and all(np.array_equal(f._risk_vector(k), v) for k, v in before[2].items()),
              f"{what}: frontier changed by selecting")


def run(case, ctx):
    a, b = case
    M = len(a)
    ret = np.array([RET[i] for i in a])
    for vals in (RISK, NEG):
        risk = np.array([vals[i] for i in b])
        alt = {"Alt A": np.array(ALT[0][:M]), "Alt B": np.array(ALT[1][:M]), "Alt C": np.array(ALT[2][:M])}
        if vals is NEG and M > 2:
            alt = {}
        W = np.array([[0.1 * (j + 1), 1 - 0.3 * (j + 1), 0.2 * (j + 1)] for j in range(M)]).T
        for names in (["z", "a", "m"], None):
            if names is None and vals is NEG:
                continue
            f = PortfolioFrontier(weights=W.copy(), returns=ret.copy(), risks=risk.copy(), risk_measure="Prime", asset_names=names,
                                  alternate_risks={k: v.copy() for k, v in alt.items()})
            explore(ctx, f"ret={ret.tolist()} risk={risk.tolist()} names={names is not None}", f, W, ret, {"Prime": risk, **alt}, names)
    ctx.out(f"M={M}")


def gen_real(tier):
    for n in (2, 3):
        for model in ("variance", "cvar", "lambda", "rrp"):
            for lab in (True, False):
                for c in (("simplex", "group", "rel") if tier == "quick" else tuple(data.CONS[n])):
                    yield [n, model, lab, c]


def run_real(case, ctx):
    n, model, lab, c = case
    R = np.array(data.SCEN[n]["A"], float) * 0.01
    p = np.arange(1.0, len(R) + 1); p /= p.sum()
    from pyvallocation.utils.constraints import Constraints
    if model == "rrp" and c not in ("simplex", "capdict"):
        return  # the marginal-risk cone of risk parity can be infeasible under further constraints (C06 covers those)
    W = E.wrapper_scen(n, R, p, lab, constraints=Constraints(**data.CONS[n][c]))
    f = {"variance": lambda: W.variance_frontier(5), "cvar": lambda: W.cvar_frontier(5, alpha=0.3),
         "lambda": lambda: W.robust_lambda_frontier(lambdas=[0.1, 0.5, 1.0, 2.0]),
         "rrp": lambda: W.relaxed_risk_parity_frontier(num_portfolios=4)}[model]()
    risks = {f.risk_measure: np.array(f.risks)}
    for k, v in f.alternate_risks.items():
        risks[k] = np.array(v)
    Wm = np.array(f.weights)
    # columns must be distinguishable: nudge-free copies of duplicated columns are dropped
    keep = [j for j in range(Wm.shape[1]) if not any(np.array_equal(Wm[:, j], Wm[:, i]) for i in range(j))]
    g = PortfolioFrontier(weights=Wm[:, keep], returns=np.array(f.returns)[keep], risks=np.array(f.risks)[keep], risk_measure=f.risk_measure,
                          asset_names=f.asset_names, alternate_risks={k: np.array(v)[keep] for k, v in f.alternate_risks.items()})
    ctx.check((f.asset_names is not None) == lab, f"{case}: labels {f.asset_names}")
    explore(ctx, str(case), g, Wm[:, keep], np.array(f.returns)[keep], {k: v[keep] for k, v in risks.items()}, g.asset_names)
    ctx.out(model)


def gen_bad(tier):
    for M in (1, 2, 3):
        for what in ("weights", "returns", "risks", "alt", "names", "metadata"):
            for d in (-1, 1):
                yield [M, what, d]


def run_bad(case, ctx):
    M, what, d = case
    n = 3
    k = lambda key: M + (d if what == key else 0)
    ctx.state()
    mk = lambda: PortfolioFrontier(weights=np.ones((n, k("weights"))), returns=np.arange(k("returns"), dtype=float), risks=np.arange(k("risks"), dtype=float), risk_measure="x",
                                   asset_names=[f"a{i}" for i in range(n + (d if what == "names" else 0))], alternate_risks={"y": np.arange(k("alt"), dtype=float)}, metadata=[{} for _ in range(k("metadata"))])
    ctx.raises(mk, ValueError, f"malformed frontier {case}")
    ctx.out(what)


FAMILIES = [
    Family("patterns", gen, run, "all return x risk patterns over 3 values for up to 3 columns, and for 4 columns (quick: monotone returns) (incl. ties, zero and negative risk, 3 alternate measures); all selectors and a threshold grid around every value"),
    Family("frontiers", gen_real, run_real, "the same exploration on frontiers produced by the four models under several constraint sets, labelled or not"),
    Family("malformed", gen_bad, run_bad, "length mismatches of every field"),
]
