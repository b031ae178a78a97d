"""C20: stress reports equal risk recomputed from definitions under the nominal and stressed distributions."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref
import pyvallocation as pv
from pyvallocation import stress as st
from pyvallocation.probabilities import generate_exp_decay_probabilities, generate_gaussian_kernel_probabilities
from pyvallocation.views import entropy_pooling, FlexibleViewsProcessor

LEVEL = "model_checking"
RULE = "case = one (scenario set, law, weights form, ...) point; the inner menus of probabilities, confidences and transforms are explored completely"
ASSUMPTIONS = ["tolerance 1e-9 relative; confidence levels denote their decimal value",
               "a report over re-sampled invariants is judged through the counts of the drawn rows, which its own means determine"]


def risk(pnl, p, conf, dm):
    """(mean, sd, VaR, CVaR) of a discrete P&L distribution."""
    m = float(pnl @ p)
    sd = float(np.sqrt(max(p @ (pnl - m) ** 2, 0)))
    x = pnl - m if dm else pnl
    tail = 1 - conf
    o = np.argsort(x, kind="stable")
    cum, acc, var = 0.0, 0.0, None
    for i in o:
        if p[i] <= 0:
            continue
        if cum < tail:
            acc += x[i] * min(p[i], tail - cum)
        cum += p[i]
        if var is None and cum >= tail - 1e-9:
            var = x[i]
    return m, sd, -var, -acc / tail


def ens(p):
    q = p[p > 0]
    return float(np.exp(-(q * np.log(q)).sum()))


def klx(q, p):
    if ((q > 0) & (p <= 0)).any():
        return np.inf
    return ref.kl(q, p)


def lab(conf):
    return int(round(conf * 100))


def table(W, R, p, conf, dm, suffix):
    rows = [risk(R @ w, p, conf, dm) for w in W]
    c = lab(conf)
    return {f"return_{suffix}": [r[0] for r in rows], f"stdev_{suffix}": [r[1] for r in rows], f"VaR{c}_{suffix}": [r[2] for r in rows],
            f"CVaR{c}_{suffix}": [r[3] for r in rows], f"ENS_{suffix}": [ens(p)] * len(rows)}


def compare(ctx, rep, want, names, what):
    if not ctx.check(isinstance(rep, pd.DataFrame) and set(rep.columns) == set(want) and list(rep.index) == list(names),
                     lambda: f"{what}: report columns {list(getattr(rep, 'columns', []))} index {list(getattr(rep, 'index', []))}, expected {sorted(want)} {list(names)}"):
        return
    for k, v in want.items():
        ctx.close(rep[k].to_numpy(), np.array(v, float), 1e-9, f"{what} {k}")


def full(W, R, p, Rs, q, conf, dm, kl=True):
    out = table(W, R, p, conf, dm, "nom")
    if Rs is not None:
        out.update(table(W, Rs, q, conf, dm, "stress"))
        if kl:
            out["KL_q_p"] = [klx(q, p)] * len(W)
    return out


def weights_menu(n):
    base = [np.eye(n)[i] for i in range(n)] + [np.full(n, 1 / n), np.array([1.5, -0.5, 0.0, 0.0])[:n], np.array([0.25, 0.5, 0.25, 0.0])[:n]]
    names = ["a", "b", "c", "d"][:n]
    M = np.column_stack(base)
    pn = [f"P{i}" for i in range(M.shape[1])][::-1]
    yield "vector", base[-1], base[-1:], ["portfolio_0"]
    yield "list", list(base[-2]), base[-2:-1], ["portfolio_0"]
    yield "matrix", M, base, [f"portfolio_{i}" for i in range(len(base))]
    yield "frame", pd.DataFrame(M, index=names, columns=pn), base, pn
    yield "frame1", pd.DataFrame(M[:, :1], index=names, columns=["only"]), base[:1], ["only"]
    yield "series", pd.Series(base[-1], index=names, name="mine"), base[-1:], ["mine"]
    yield "series0", pd.Series(base[-1], index=names, name=0), base[-1:], [0]
    yield "anon", pd.Series(base[-3], index=names), base[-3:-2], ["portfolio_0"]
    yield "mapping", dict(zip(names, base[-2])), base[-2:-1], ["portfolio_0"]


CONFS = (0.95, 0.75, 0.5, 0.9)


def gen1(tier):
    for n in (2, 3) + ((4,) if tier == "thorough" else ()):
        for sc in data.SCEN[n]:
            for scale in ((0.125, 0.01) if tier == "thorough" else (0.01,)):
                for form in ("matrix", "frame", "series", "vector", "mapping", "list", "series0", "anon", "frame1"):
                    yield [n, sc, scale, form, tier == "thorough"]


def run1(case, ctx):
    n, sc, scale, form, deep = case
    R = np.array(data.SCEN[n][sc], float) * scale
    T = len(R)
    w, W, names = [x[1:] for x in weights_menu(n) if x[0] == form][0]
    lat = ref.simplex_lattice(T, 3 if T <= 4 else 2)
    if not deep:
        lat = np.vstack([lat[:: max(1, len(lat) // 12)], np.full((1, T), 1 / T)])
    frm = pd.DataFrame(R, columns=["a", "b", "c", "d"][:n])
    for conf in CONFS if deep else CONFS[:3]:
        for dm in (False, True):
            for scen in ((R, frm) if form not in ("series", "mapping") else (frm,)):
                ctx.state(); ctx.step()
                compare(ctx, st.stress_test(w, scen, confidence=conf, demean=dm), table(W, R, np.full(T, 1 / T), conf, dm, "nom"), names, f"{case} conf={conf} dm={dm} nominal only")
            for i, p in enumerate(lat):
                scen = frm if i % 2 or form in ("series", "mapping") else R
                ctx.state(); ctx.step()
                compare(ctx, st.stress_test(w, scen, probabilities=p, confidence=conf, demean=dm), table(W, R, p, conf, dm, "nom"), names, f"{case} conf={conf} dm={dm} p={p}")
                for j, q in enumerate(lat):
                    if not deep and (i + j) % 4 > (conf == 0.95):
                        continue
                    if conf == 0.9 and dm:
                        continue
                    ctx.state(); ctx.step()
                    fn = st.stress_test if (i + j) % 2 else st.entropy_pooling_stress
                    kw = dict(stressed_probabilities=q) if fn is st.stress_test else dict(posterior_probabilities=q)
                    rep = fn(w, scen, probabilities=list(p) if j % 2 else p, confidence=conf, demean=dm, **kw)
                    compare(ctx, rep, full(W, R, p, R, q, conf, dm), names, f"{case} conf={conf} dm={dm} p={p} q={q}")
    ctx.out(form)


def mats_menu(n):
    rot = np.roll(np.eye(n), 1, axis=0)
    low = np.tril(np.ones((n, n))) / 2
    return [None, rot, low, np.diag(np.arange(n) - 1.0)]


def gen2(tier):
    for n in (2, 3) + ((4,) if tier == "thorough" else ()):
        for sc in data.SCEN[n]:
            for mi in range(4):
                for scale in (None, 1.5, 0.0, -1.0, 1.0):
                    for shift in (None, "zero", "arr", "list"):
                        yield [n, sc, mi, scale, shift]


def run2(case, ctx):
    """Shifts, scalings, matrix maps and arbitrary transforms, alone and together with stressed probabilities."""
    n, sc, mi, scale, shift = case
    R = np.array(data.SCEN[n][sc], float) * 0.01
    T = len(R)
    B = mats_menu(n)[mi]
    s = {None: None, "zero": np.zeros(n), "arr": np.array([0.02, -0.03, 0.01, 0.05])[:n], "list": [0.02, -0.03, 0.01, 0.05][:n]}[shift]
    want = R.copy()
    if B is not None:
        want = np.array([[sum(B[i, k] * r[k] for k in range(n)) for i in range(n)] for r in want])
    if scale is not None:
        want = want * scale
    if s is not None:
        want = want + np.array(s)
    f = st.linear_map(mean_shift=s, scale=scale, matrix=B)
    keep = R.copy()
    got = f(R)
    ctx.state(); ctx.step()
    ctx.close(got, want, 1e-12, f"{case} linear map")
    ctx.check(np.array_equal(R, keep), f"{case}: linear map modified its input")
    ctx.close(f(R), want, 1e-12, f"{case} linear map, second call")
    ps = [np.full(T, 1 / T), np.arange(1, T + 1) / (T * (T + 1) / 2), np.eye(T)[0]]
    for form, w, W, names in weights_menu(n):
        if form not in ("matrix", "frame", "mapping"):
            continue
        frm = pd.DataFrame(R, columns=["a", "b", "c", "d"][:n])
        for p, q, (conf, dm) in itertools.product(ps, [None] + ps, ((0.95, False), (0.5, True))):
            ctx.state(); ctx.step()
            kw = {} if q is None else dict(stressed_probabilities=q)
            rep = st.stress_test(w, frm, probabilities=p, transform=f, confidence=conf, demean=dm, **kw)
            compare(ctx, rep, full(W, R, p, want, p if q is None else q, conf, dm, q is not None), names, f"{case} {form} p={p} q={q} conf={conf} dm={dm}")
    ctx.out("map")


def gen3(tier):
    for n in (2, 3):
        for sc in data.SCEN[n]:
            for pi in range(4):
                yield [n, sc, pi, tier == "thorough"]


def run3(case, ctx):
    """Decay, kernel focus and pooled views use exactly the law of the corresponding building block."""
    n, sc, pi, deep = case
    R = np.array(data.SCEN[n][sc], float) * 0.01
    T = len(R)
    p = [None, np.arange(1, T + 1) * 2.0 / (T * (T + 1)), np.roll(np.full(T, 1.0), 1) / T, np.where(np.arange(T) == 1, 0, 1 / (T - 1))][pi]
    pn = np.full(T, 1 / T) if p is None else p
    names_a = ["a", "b", "c", "d"][:n]
    idx = [f"t{i}" for i in range(T)]
    frm = pd.DataFrame(R, columns=names_a, index=idx)
    x = np.array([3.0, 1.0, 4.0, 1.5, 5.0, 2.0])[:T]
    for form, w, W, names in weights_menu(n):
        if form not in ("matrix", "frame", "series", "mapping"):
            continue
        for conf, dm in ((0.95, False), (0.5, True), (0.75, False)):
            for hl in (1, 2, 3, 0.5, 60) + ((1000, 7) if deep else ()):
                q = 0.5 ** ((T - 1 - np.arange(T)) / hl)
                q = q / q.sum()
                ctx.state(); ctx.step()
                what = f"{case} {form} half-life {hl} conf={conf} dm={dm}"
                rep = st.exp_decay_stress(w, frm, probabilities=p, half_life=hl, confidence=conf, demean=dm)
                compare(ctx, rep, full(W, R, pn, R, q, conf, dm), names, what)
                ctx.close(generate_exp_decay_probabilities(T, hl), q, 1e-12, what + " building block")
            for h in (None, 0.5, 2.0):
                for tgt in (None, 1.0, 3.7, 0.0):
                    hh = 1.06 * np.std(x, ddof=1) * T ** -0.2 if h is None else h
                    q = np.exp(-(x - (x[-1] if tgt is None else tgt)) ** 2 / (2 * hh * hh))
                    q = q / q.sum()
                    perm = list(range(T))[::-1]
                    for fs in (x, list(x), pd.Series(x, index=idx), pd.Series(x, index=idx).iloc[perm]):
                        ctx.state(); ctx.step()
                        rep = st.kernel_focus_stress(w, frm, focus_series=fs, probabilities=p, bandwidth=h, target=tgt, confidence=conf, demean=dm)
                        compare(ctx, rep, full(W, R, pn, R, q, conf, dm), names, f"{case} {form} kernel h={h} target={tgt} {type(fs).__name__}")
            # pooled views: mean of the first asset moved to several attainable levels
            for lam in (0.25, 0.5, 0.75):
                lo, hi = sorted((float(pn @ R[:, 0]), float(R[pn > 0, 0].max())))
                if hi - lo < 1e-12:
                    continue
                b = np.array([1.0, lo + lam * (hi - lo)])
                A = np.vstack([np.ones(T), R[:, 0]])
                pr = pn if (pn > 0).all() else None
                if pr is None:
                    continue
                q = np.asarray(entropy_pooling(pr.reshape(-1, 1), A, b.reshape(-1, 1))).ravel()
                for qf in (q, q.reshape(-1, 1), pd.Series(q, index=idx), pd.Series(q, index=idx).iloc[::-1]):
                    ctx.state(); ctx.step()
                    rep = st.entropy_pooling_stress(w, frm, posterior_probabilities=qf, probabilities=p, confidence=conf, demean=dm)
                    compare(ctx, rep, full(W, R, pn, R, q / q.sum(), conf, dm), names, f"{case} {form} pooled {lam} {type(qf).__name__}")
                ctx.out("pooled")
    ctx.out("laws")


def gen4(tier):
    for n in (2, 3):
        for perm in data.perms(n):
            for sc in data.SCEN[n]:
                yield [n, sc, list(perm)]


def run4(case, ctx):
    """Names decide: weights, probabilities and scenarios in any order; a null stress changes nothing; mismatches are refused."""
    n, sc, perm = case
    R = np.array(data.SCEN[n][sc], float) * 0.01
    T = len(R)
    for labels in (["a", "b", "c"][:n], [10, 20, 30][:n], [2, 0, 1][:n] if n == 3 else [1, 0]):
        frm = pd.DataFrame(R, columns=labels)
        tix = pd.date_range("2020-01-01", periods=T)
        frm.index = tix
        p = np.arange(1, T + 1) * 2.0 / (T * (T + 1))
        q = p[::-1].copy()
        w = np.array([0.5, 0.75, -0.25])[:n]
        M = np.column_stack([w, w[::-1], np.eye(n)[0]])
        pn = ["z", "m", "a"]
        for rot in range(T):
            order = [(i + rot) % T for i in range(T)][::-1]
            ps, qs = pd.Series(p, index=tix).iloc[order], pd.Series(q, index=tix).iloc[order]
            for wf, W, names in ((pd.Series(w, index=labels, name="s").iloc[perm], [w], ["s"]), (pd.DataFrame(M, index=labels, columns=pn).iloc[perm], list(M.T), pn),
                                 ({labels[i]: w[i] for i in perm}, [w], ["portfolio_0"])):
                ctx.state(); ctx.step()
                rep = st.stress_test(wf, frm, probabilities=ps, stressed_probabilities=qs, transform=st.linear_map(scale=2.0), confidence=0.75)
                compare(ctx, rep, full(W, R, p, 2 * R, q, 0.75, False), names, f"{case} {labels} rot={rot} {type(wf).__name__}")
                # null stresses
                for kw in (dict(stressed_probabilities=ps), dict(transform=lambda X: X), dict(stressed_probabilities=p * 3), dict(transform=st.linear_map())):
                    ctx.step()
                    rep = st.stress_test(wf, frm, probabilities=ps, confidence=0.75, **kw)
                    compare(ctx, rep, full(W, R, p, R, p, 0.75, False, "stressed_probabilities" in kw), names, f"{case} null stress {sorted(kw)}")
        bad = [pd.Series(w, index=[f"x{l}" for l in labels]), pd.Series(w[:-1], index=labels[:-1]), pd.Series(list(w) + [0.0], index=list(labels) + ["extra"]),
               pd.Series(list(w) + [0.1], index=list(labels) + [labels[-1]]), {l: 0.5 for l in labels[:-1]}, dict(zip(list(labels) + ["q"], list(w) + [0.0]))]
        for i, b in enumerate(bad):
            ctx.state()
            ctx.raises(lambda: st.stress_test(b, frm), Exception, f"{case} {labels} mismatched weights {i}")
            ctx.raises(lambda: st.exp_decay_stress(b, frm, half_life=2), Exception, f"{case} {labels} mismatched weights {i} (decay)")
        wrong = pd.Series(p, index=[f"d{i}" for i in range(T)])
        for kw in (dict(probabilities=wrong), dict(stressed_probabilities=wrong)):
            ctx.raises(lambda: st.stress_test(w, frm, **kw), Exception, f"{case} mismatched {sorted(kw)}")
        ctx.raises(lambda: st.kernel_focus_stress(w, frm, focus_series=wrong), Exception, f"{case} mismatched focus series")
        dup = frm.copy()
        dup.columns = [labels[0]] * n
        ctx.raises(lambda: st.stress_test(pd.Series([1.0], index=[labels[0]]), dup), Exception, f"{case} duplicated scenario names")
    ctx.out("labels")


def gen5(tier):
    for kind in ("simple", "exp", "dict"):
        for T in (2, 3):
            for horizon in (1, 2) if T == 2 else (1,):
                for view in (None, "eq", "ge_slack", "ge", "le"):
                    for seed in range(3 if tier == "quick" else 12):
                        yield [kind, T, horizon, view, seed]


def run5(case, ctx):
    """Invariant-level stress: each block is the exact report of some re-sample of the repriced invariants, drawn with the pooled law."""
    kind, T, H, view, seed = case
    n_sim = 400
    X = np.array([[0.02, -0.01], [-0.04, 0.03], [0.01, 0.06]])[:T]
    inv = pd.DataFrame(X, columns=["u", "v"])
    x = X[:, 0]
    base = x.mean()
    val = base + 0.4 * (x.max() - base)
    views = {None: None, "eq": {"u": val}, "ge": {"u": (">=", val)}, "le": {"u": ("<=", base + 0.5 * (x.min() - base))}, "ge_slack": {"u": (">=", base - 0.001)}}[view]
    q = np.full(T, 1 / T)
    if view in ("eq", "ge", "le"):
        tgt = views["u"] if view == "eq" else views["u"][1]
        q = ref.ep_solve(np.full(T, 1 / T), np.vstack([np.ones(T), x]), np.array([1.0, tgt]))
    if kind == "simple":
        rep_fn, names = (lambda y: y), ["u", "v"]
        val_fn = lambda Y: Y
    elif kind == "exp":
        rep_fn, names = pv.reprice_exp, ["u", "v"]
        val_fn = lambda Y: np.exp(Y) - 1
    else:
        rep_fn, names = {"I": ("v", lambda y: 2.0 * y), "J": ("u", lambda y: np.exp(y) - 1)}, ["I", "J"]
        val_fn = lambda Y: np.column_stack([2.0 * Y[:, 1], np.exp(Y[:, 0]) - 1])
    combos = list(itertools.combinations_with_replacement(range(T), H))
    Y = np.array([X[list(c)].sum(0) for c in combos])
    V = val_fn(Y)
    from math import factorial
    mult = [factorial(H) / np.prod([factorial(c.count(i)) for i in set(c)]) for c in combos]
    W = [np.array([1.0, 0.0]), np.array([0.0, 1.0]), np.array([0.5, 0.5]), np.array([1.5, -0.5])]
    wf = pd.DataFrame(np.column_stack(W)[::-1], index=names[::-1], columns=["e0", "e1", "h", "ls"])
    kw = dict(horizon=H, n_simulations=n_sim, seed=seed)
    for conf, dm in ((0.95, False), (0.75, True)):
        ctx.state(); ctx.step(2)
        rep = st.stress_invariants(inv, wf, rep_fn, stress_views=views, confidence=conf, demean=dm, **kw)
        again = st.stress_invariants(inv, wf, rep_fn, stress_views=views, confidence=conf, demean=dm, **kw)
        ctx.check(rep.equals(again), f"{case}: same seed, different report")
        c = lab(conf)
        cols = {f"{m}_{s}" for s in (("nom",) if views is None else ("nom", "stressed")) for m in ("return", "stdev", f"VaR{c}", f"CVaR{c}", "ENS")}
        if not ctx.check(set(rep.columns) == cols and list(rep.index) == list(wf.columns), f"{case}: columns {list(rep.columns)} index {list(rep.index)}"):
            return
        for suf, law in (("nom", np.full(T, 1 / T)), ("stressed", q)):
            if f"return_{suf}" not in rep:
                continue
            r, s = rep[f"return_{suf}"], rep[f"stdev_{suf}"]
            # counts of the drawn combinations from the reported first and second moments
            A = [np.ones(len(combos)), V[:, 0], V[:, 1], V[:, 0] ** 2, V[:, 1] ** 2]
            b = [1, r["e0"], r["e1"], s["e0"] ** 2 + r["e0"] ** 2, s["e1"] ** 2 + r["e1"] ** 2]
            sc = np.array([1, 1e2, 1e2, 1e4, 1e4])
            f = np.linalg.lstsq(np.array(A) * sc[:, None], np.array(b) * sc, rcond=None)[0]
            cnt = np.rint(f * n_sim)
            ctx.check(np.abs(f * n_sim - cnt).max() < 1e-3 and cnt.min() >= 0 and cnt.sum() == n_sim, f"{case} {suf}: report is not that of {n_sim} drawn rows (counts {f * n_sim})")
            pr = cnt / n_sim
            expect = table(W, V, pr, conf, dm, suf)
            for k, v in expect.items():
                if k.startswith("ENS"):
                    v = [float(n_sim)] * len(W)
                ctx.close(rep[k].to_numpy(), np.array(v), 1e-8, f"{case} {k}")
            lawc = np.array([m * np.prod(law[list(cc)]) for m, cc in zip(mult, combos)])
            dev = np.abs(pr - lawc) / np.sqrt(np.maximum(lawc * (1 - lawc), 1e-9) / n_sim)
            ctx.check(dev.max() < 6, f"{case} {suf}: drawn frequencies {pr} far from law {lawc}")
    ctx.out(f"{kind}/{view}")


def gen6(tier):
    for i in range(22):
        yield [i]


def run6(case, ctx):
    R = np.array(data.SCEN[2]["A"], float)
    w = np.array([0.5, 0.5])
    T = len(R)
    bad = [lambda: st.stress_test(w, R, confidence=0.0), lambda: st.stress_test(w, R, confidence=1.0), lambda: st.stress_test(w, R, confidence=1.5), lambda: st.stress_test(w, R, confidence=float("nan")),
           lambda: st.stress_test(w, R[:, 0]), lambda: st.stress_test([1.0], R), lambda: st.stress_test([0.2, 0.3, 0.5], R), lambda: st.stress_test(np.ones((3, 2)), R), lambda: st.stress_test(np.ones((2, 2, 1)), R),
           lambda: st.stress_test(w, R, probabilities=np.ones(T - 1) / (T - 1)), lambda: st.stress_test(w, R, probabilities=[-0.1] + [1.1 / (T - 1)] * (T - 1)),
           lambda: st.stress_test(w, R, stressed_probabilities=np.ones(T + 1)), lambda: st.stress_test(w, R, stressed_probabilities=np.zeros(T)), lambda: st.stress_test(w, R, stressed_probabilities=[np.nan] * T),
           lambda: st.stress_test(w, R, transform=lambda X: X[:, :1]), lambda: st.stress_test(w, R, transform=lambda X: X[:-1]), lambda: st.stress_test(w, R, transform=lambda X: X * np.nan),
           lambda: st.exp_decay_stress(w, R, half_life=0), lambda: st.kernel_focus_stress(w, R, focus_series=np.arange(T - 1.0)), lambda: st.kernel_focus_stress(w, R, focus_series=np.arange(T * 1.0), bandwidth=0.0),
           lambda: st.linear_map(mean_shift=[1.0])(R), lambda: st.stress_test(w, R, transform=st.linear_map(mean_shift=np.ones((2, 2))))]
    ctx.state()
    ctx.raises(bad[case[0]], Exception, f"invalid call {case[0]}")
    ctx.out("invalid")


FAMILIES = [
    Family("reports", gen1, run1, "scenario sets x 9 weight forms x nominal and stressed probability lattices x confidences x demeaning: every cell recomputed from definitions"),
    Family("maps", gen2, run2, "all combinations of matrix, scale and shift stresses, with and without stressed probabilities"),
    Family("laws", gen3, run3, "decay half-lives, kernel bandwidths and targets, pooled views: exact law of the building block"),
    Family("labels", gen4, run4, "all asset permutations x scenario rotations, null stresses, mismatched labels"),
    Family("invariants", gen5, run5, "invariant-level stress: report equals that of the drawn rows, frequencies follow the pooled law"),
    Family("invalid", gen6, run6, "malformed inputs"),
]
