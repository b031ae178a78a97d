"""C14: each kind of view shifts the scenario distribution as stated (FlexibleViewsProcessor)."""
import itertools
import numpy as np
import pandas as pd
from scipy.optimize import brentq
from mc.core import Family
from mc import ref
from pyvallocation.views import FlexibleViewsProcessor, at_least, at_most, between, above, below

LEVEL = "model_checking"
RULE = "case = prior scenarios x prior probabilities x one combination of views; every operator, target and mode of the stated grids"
ASSUMPTIONS = ["volatility, variance, skewness and correlation views are linear conditions on raw moments taken at the documented reference mean and variance "
               "(prior, or the mean-view posterior, or the previous stages in sequential mode)",
               "posterior compared with the exact minimiser at 1e-3, views at 4e-4 of the row scale (accuracy of the dual solver)"]

LAB = ["b", "a", "c"]
R6 = np.array([[2, -1, 1], [-1, 2, 0], [3, 1, -2], [0, -3, 2], [-2, 0, -1], [1, 3, 3], [-3, -2, -3]], float)
R5 = np.array([[1, 4, -1], [-2, 1, 2], [3, -1, 0], [0, -3, 1], [-1, 0, -3]], float)
SETS = {"A": R6, "B": R5}
PRI = {"u": lambda S: np.ones(S) / S, "inc": lambda S: np.arange(1.0, S + 1) / (S * (S + 1) / 2)}
ORDER = ["mean", "vol", "var", "skew", "corr"]
OPS = {"=": lambda t: t, "==": lambda t: ("==", t), ">=": at_least, "<=": at_most, ">": above, "<": below, "><": None}


def spec(op, t):
    if op == "><":
        return between(*t)
    return OPS[op](t)


def targets(op, t):
    """-> list of (sign, target); sign 0 equality, +1 at most, -1 at least."""
    if op == "><":
        return [(-1, t[0]), (1, t[1])]
    return [({"=": 0, "==": 0, ">=": -1, ">": -1, "<=": 1, "<": 1}[op], t)]


def moment(R, p):
    mu = p @ R
    X = R - mu
    C = (X * p[:, None]).T @ X
    return mu, C


def raw(kind, key, t, R, mu, var):
    """Row and right-hand side of one view at the reference moments."""
    if kind == "mean":
        if len(key) == 2:
            return R[:, key[0]] - R[:, key[1]], t
        return R[:, key[0]], t
    i = key[0]
    if kind == "vol":
        return R[:, i] ** 2, t * t + mu[i] ** 2
    if kind == "var":
        return R[:, i] ** 2, t + mu[i] ** 2
    if kind == "skew":
        return R[:, i] ** 3, t * var[i] ** 1.5 + 3 * mu[i] * var[i] + mu[i] ** 3
    if kind == "corr":
        j = key[1]
        return R[:, i] * R[:, j], t * np.sqrt(var[i] * var[j]) + mu[i] * mu[j]
    if kind == "quantile":
        return (R[:, i] <= t[0]).astype(float), t[1]
    raise ValueError(kind)


def rows(views, kind, R, mu, var):
    A, b, G, h = [], [], [], []
    for k, key, op, t in views:
        if k == "rank":
            if kind == "mean":
                for x, y in zip(key[:-1], key[1:]):
                    G.append(R[:, y] - R[:, x])
                    h.append(0.0)
            continue
        if k != kind:
            continue
        if k == "quantile":
            parts = [(s, (t[0], q)) for s, q in targets(op, t[1])]
        else:
            parts = targets(op, t)
        for s, tv in parts:
            r, v = raw(k, key, tv, R, mu, var)
            if s == 0:
                A.append(r)
                b.append(v)
            else:
                G.append(s * r)
                h.append(s * v)
    return A, b, G, h


def cat(*parts):
    return tuple(sum((list(p[i]) for p in parts), []) for i in range(4))


def mats(c, S):
    A, b, G, h = c
    return np.array([np.ones(S)] + A), np.array([1.0] + b), (np.array(G) if G else None), (np.array(h) if G else None)


WORST = ["interior", "boundary", "marginal", "infeasible"]


def expected(R, p, views, seq):
    """-> (status, exact posterior or None, final constraint matrices or None)."""
    S = len(R)
    mu, C = moment(R, p)
    var = np.diag(C)
    kinds = [k for k in ORDER if any(v[0] == k or (k == "mean" and v[0] == "rank") for v in views)]
    quant = rows(views, "quantile", R, mu, var)
    if seq:
        kept, q, worst = ([], [], [], []), p, "interior"
        for k in kinds:
            kept = cat(kept, rows(views, k, R, mu, var))
            m = mats(kept, S)
            st = ref.ep_status(*m)
            if st != "interior":
                return st, None, None
            q = ref.ep_solve(q, *m)
            if q is None:
                return "interior", None, None
            mu, C = moment(R, q)
            var = np.diag(C)
        if any(quant):
            kept = cat(kept, quant)
            m = mats(kept, S)
            st = ref.ep_status(*m)
            if st != "interior":
                return st, None, None
            q = ref.ep_solve(q, *m)
        return worst, q, mats(kept, S)
    if "mean" in kinds and len(kinds) > 1:
        m = mats(rows(views, "mean", R, mu, var), S)
        st = ref.ep_status(*m)
        if st != "interior":
            return st, None, None
        q = ref.ep_solve(p, *m)
        if q is None:
            return "interior", None, None
        mu, C = moment(R, q)
        var = np.diag(C)
    m = mats(cat(*[rows(views, k, R, mu, var) for k in kinds], quant), S)
    st = ref.ep_status(*m)
    return st, (ref.ep_solve(p, *m) if st == "interior" else None), m


ARG = {"mean": "mean_views", "vol": "vol_views", "var": "var_views", "skew": "skew_views", "corr": "corr_views", "quantile": "quantile_views"}


def payload(views, names):
    kw = {}
    for k, key, op, t in views:
        if k == "rank":
            kw["rank_mean"] = [names[i] for i in key]
            continue
        d = kw.setdefault(ARG[k], {})
        nk = names[key[0]] if len(key) == 1 else tuple(names[i] for i in key)
        s = (t[0], spec(op, t[1])) if k == "quantile" else spec(op, t)
        if nk in d:
            d[nk] = (d[nk] if isinstance(d[nk], list) else [d[nk] if isinstance(d[nk], tuple) else ("==", d[nk])]) + [s if isinstance(s, tuple) else ("==", s)]
        else:
            d[nk] = s
    return kw


def copy_kw(kw):
    return {k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in kw.items()}


def judge(ctx, R, p, views, seq, form, what, budget=None):
    """One construction of the processor; form: 'array' or 'frame'."""
    S, n = R.shape
    st, w, m = expected(R, p, views, seq)
    if st in ("infeasible",) and budget is not None:
        if budget[0] <= 0:
            ctx.out("infeasible: left to the other cases (1 s refusals)")
            return
        budget[0] -= 1
    names = LAB[:n] if form == "frame" else [str(i) for i in range(n)]
    kw = payload(views, names)
    keep = copy_kw(kw)
    Rin = pd.DataFrame(R.copy(), columns=names) if form == "frame" else R.copy()
    pin = p.copy()
    ctx.state()
    ctx.step()
    ctx.validated += 1
    try:
        fv = FlexibleViewsProcessor(Rin, pin, sequential=seq, **kw)
    except (RuntimeError, ValueError) as exc:
        ctx.out(f"{st}: error")
        if st == "interior":
            ctx.fail(f"{what}: attainable views refused ({type(exc).__name__}: {exc})")
        return
    ctx.out(f"{st}: answered")
    ctx.check(kw == keep and np.array_equal(np.asarray(Rin), R) and np.array_equal(pin, p), f"{what}: caller inputs changed")
    if st == "infeasible":
        ctx.fail(f"{what}: contradictory views answered")
        return
    q = np.asarray(fv.get_posterior_probabilities())
    ctx.check(q.shape == (S, 1), f"{what}: shape {q.shape}")
    q = q.ravel()
    ctx.check(np.all(np.isfinite(q)) and np.all(q >= 0) and abs(q.sum() - 1) < 1e-9, f"{what}: not a probability vector")
    mu, C = fv.get_posterior()
    emu, eC = moment(R, q)
    if form == "frame":
        ctx.check(list(mu.index) == names and list(C.index) == names and list(C.columns) == names, f"{what}: labels")
        ctx.check(list(fv.get_scenarios().columns) == names, f"{what}: scenario labels")
    sc = np.abs(R).max()
    ctx.close(np.asarray(mu) / sc, emu / sc, 1e-10, f"{what}: posterior mean is not the mean under the posterior probabilities")
    ctx.close(np.asarray(C) / sc ** 2, eC / sc ** 2, 1e-10, f"{what}: posterior covariance is not the covariance under the posterior probabilities")
    ctx.check(np.array_equal(np.asarray(fv.get_scenarios()), R), f"{what}: scenarios changed")
    if m is not None:
        A, b, G, h = m
        res = np.abs(A @ q - b) / np.maximum(np.abs(A).max(1), 1e-12)
        ctx.check(res.max() <= 4e-4, lambda: f"{what}: view missed by {res} of the row scale, q={np.round(q, 5)}")
        if G is not None:
            gap = (G @ q - h) / np.maximum(np.abs(G).max(1), 1e-12)
            ctx.check(gap.max() <= 4e-4, lambda: f"{what}: inequality view violated by {gap} of the row scale, q={np.round(q, 5)}")
    if w is not None:
        ctx.check(np.abs(q - w).max() <= 1e-3, lambda: f"{what}: not the closest distribution: {np.round(q, 5)} vs {np.round(w, 5)}")
    return fv


def stat(kind, key, R, p):
    mu, C = moment(R, p)
    sd = np.sqrt(np.diag(C))
    i = key[0]
    if kind == "mean":
        return (mu[i] - mu[key[1]], sd[i]) if len(key) == 2 else (mu[i], sd[i])
    if kind == "vol":
        return sd[i], sd[i]
    if kind == "var":
        return C[i, i], C[i, i]
    if kind == "skew":
        return p @ (R[:, i] - mu[i]) ** 3 / sd[i] ** 3, 1.0
    if kind == "corr":
        return C[i, key[1]] / sd[i] / sd[key[1]], 1.0


DELTAS = {"mean": (-0.6, -0.2, 0.0, 0.3, 0.9), "vol": (-0.3, -0.1, 0.0, 0.1, 0.25), "var": (-0.4, -0.1, 0.0, 0.15, 0.4),
          "skew": (-0.6, -0.2, 0.0, 0.2, 0.5), "corr": (-0.5, -0.2, 0.0, 0.2, 0.4)}


def gen_single(tier):
    for name in SETS if tier == "thorough" else ["A"]:
        for pk in PRI:
            for kind in ORDER:
                keys = [[0], [1], [2]] if kind not in ("mean", "corr") else [[0], [1], [2], [0, 1], [2, 0], [1, 2]] if kind == "mean" else [[0, 1], [2, 0], [2, 1]]
                for key in keys:
                    for scale in (0.01, 1.0):
                        yield [name, pk, kind, key, scale]


def run_single(case, ctx):
    name, pk, kind, key, scale = case
    R = SETS[name] * scale
    p = PRI[pk](len(R))
    base, unit = stat(kind, key, R, p)
    budget = [1 if pk == "u" and scale == 0.01 else 0]
    for d in DELTAS[kind]:
        t = base + d * unit
        if kind == "corr":
            t = float(np.clip(t, -1, 1))
        for op in OPS:
            for seq in (False, True):
                form = "frame" if (seq ^ (d > 0)) else "array"
                tv = (t - 0.1 * unit, t + 0.05 * unit) if op == "><" else t
                if kind == "corr" and op == "><":
                    tv = tuple(np.clip(tv, -1, 1))
                if kind in ("vol", "var") and op == "><" and min(tv) <= 0:
                    continue
                judge(ctx, R, p, [(kind, key, op, tv)], seq, form, f"{name}*{scale} {pk} {kind}{key} {op} {np.round(tv, 5)} seq={seq} {form}", budget)


def view(kind, key, op, d, R, p):
    base, unit = stat(kind, key, R, p)
    t = base + d * unit
    if op == "><":
        t = (t - 0.05 * unit, t + 0.05 * unit)
    return (kind, key, op, t)


POOL = [("mean", [0], 0.3), ("mean", [1], -0.25), ("mean", [2, 1], 0.25), ("vol", [0], 0.1), ("vol", [2], -0.15), ("var", [1], 0.2), ("var", [0], -0.1),
        ("skew", [0], 0.2), ("skew", [2], -0.2), ("corr", [0, 1], 0.25), ("corr", [2, 1], -0.2)]


def gen_pairs(tier):
    for a, b in itertools.combinations(range(len(POOL)), 2):
        for oa, ob in itertools.product(("=", ">=", "<="), repeat=2):
            for pk in PRI if tier == "thorough" else ["inc" if (a + b) % 2 else "u"]:
                yield [[a, b], [oa, ob], pk]


def run_pairs(case, ctx):
    idx, ops, pk = case
    R = SETS["A"] * 0.01
    p = PRI[pk](len(R))
    views = [view(POOL[i][0], POOL[i][1], o, POOL[i][2], R, p) for i, o in zip(idx, ops)]
    budget = [0 if sum(idx) % 5 else 1]
    for seq in (False, True):
        for form in ("frame", "array"):
            judge(ctx, R, p, views, seq, form, f"{pk} {[(v[0], v[1], v[2], round(float(v[3]), 6)) for v in views]} seq={seq} {form}", budget)


def gen_triples(tier):
    for c in itertools.combinations(range(len(POOL)), 3):
        if tier == "quick" and sum(c) % 2:
            continue
        yield [list(c)]


def run_triples(case, ctx):
    R = SETS["A"] * 0.01
    p = PRI["u"](len(R))
    ii = case[0]
    for ops in (("=", "=", "="), (">=", "<=", "="), ("=", ">=", "><"), ("<=", "><", ">=")):
        views = [view(POOL[i][0], POOL[i][1], o, POOL[i][2] * 0.6, R, p) for i, o in zip(ii, ops)]
        for seq in (False, True):
            judge(ctx, R, p, views, seq, "frame", f"{[(v[0], v[1], v[2], np.round(v[3], 5).tolist()) for v in views]} seq={seq}", [0])


CONDS = ((">=", -0.6), ("<=", 0.9), (">=", 0.35), ("<=", -0.3), ("=", 0.25), ("><", -0.2), ("><", 0.4))


def gen_multi(tier):
    for kind, key in (("mean", [0]), ("mean", [2, 1]), ("vol", [1]), ("var", [0]), ("skew", [2]), ("corr", [1, 0])):
        for a, b in itertools.combinations(range(len(CONDS)), 2):
            yield [kind, key, a, b]
    for k in range(7):
        yield ["heavy", [k], 0, 0]


def run_multi(case, ctx):
    kind, key, a, b = case
    R = SETS["A"] * 0.01
    if kind == "heavy":
        # almost all prior mass on one scenario
        p = np.full(7, (1 - 0.9995) / 6)
        p[key[0]] = 0.9995
        u = np.ones(7) / 7
        for i in range(3):
            for kd, ky in (("mean", [i]), ("vol", [i]), ("quantile", [i]), ("corr", [i, (i + 1) % 3])):
                for op in ("=", "<=", ">="):
                    v = ("quantile", [i], op, (0.0, 0.5)) if kd == "quantile" else view(kd, ky, op, 0.1, R, u)
                    for seq in (False, True):
                        judge(ctx, R, p, [v], seq, "frame", f"prior {np.round(p, 5)}: {v[:3]} seq={seq}", [0])
        for i in range(3):
            for seq in (False, True):
                judge(ctx, R, u, [("var", [i], ">=", 0.0)], seq, "array", f"variance of x{i} at least 0 seq={seq}", [0])
        return
    scale = 0.4 if kind in ("vol", "var", "corr") else 1.0
    p = PRI["inc"](7)
    for c in range(len(CONDS)):
        for tr in ((a, b, c), (c, b, a), (b, c, a)) if c not in (a, b) else ((a, b),) if c == a else ((b, a),):
            views = [view(kind, key, CONDS[j][0], CONDS[j][1] * scale, R, p) for j in tr]
            for seq in (False, True):
                judge(ctx, R, p, views, seq, "frame", f"{kind}{key}: all of {[CONDS[j] for j in tr]} seq={seq}", [0])


def gen_rank(tier):
    for order in list(itertools.permutations(range(3))) + [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]:
        for pk in PRI:
            yield [list(order), pk]


def run_rank(case, ctx):
    order, pk = case
    for name in SETS:
        R = SETS[name] * 0.01
        p = PRI[pk](len(R))
        others = [[], [view("mean", [0], "=", 0.2, R, p)], [view("mean", [order[0], order[1]], ">=", 0.1, R, p)],
                  [view("mean", [order[0], order[1]], "<=", 0.5, R, p)], [view("vol", [1], "=", 0.1, R, p)],
                  [view("mean", [order[1]], ">=", 0.3, R, p), view("corr", [0, 1], "<=", -0.1, R, p)],
                  [view("mean", [order[-2], order[-1]], ">=", 0.15, R, p)], [view("mean", [order[-2], order[-1]], "=", 0.4, R, p)]]
        for o in others:
            for seq in (False, True):
                judge(ctx, R, p, [("rank", order, "", 0)] + o, seq, "frame", f"{name} {pk} rank {order} with {[v[:3] for v in o]} seq={seq}", [0])


def gen_quant(tier):
    for name in SETS:
        for pk in PRI:
            for i in range(3):
                yield [name, pk, i]


def run_quant(case, ctx):
    name, pk, i = case
    R = SETS[name] * 0.01
    p = PRI[pk](len(R))
    for lev in np.unique(R[:, i]).tolist() + [float(np.unique(R[:, i])[1]) + 0.005, float(np.unique(R[:, i])[2]) - 3e-7]:
        pr = float(p[R[:, i] <= lev].sum())
        for f in (0.4, 0.8, 1.0, 1.3, 2.2):
            t = pr * f
            if not 0 < t < 1:
                continue
            for op in ("=", ">=", "<=", "><"):
                tv = (max(t - 0.05, 0.001), min(t + 0.03, 0.999)) if op == "><" else t
                for other in ([], [view("mean", [(i + 1) % 3], "=", 0.2, R, p)], [view("vol", [i], ">=", 0.05, R, p)], [view("mean", [i], ">=" if f < 1 else "<=", 0.1 if f < 1 else -0.1, R, p)]):
                    for seq in (False, True) if not other or other[0][0] != "mean" else (True,) if len(other) and other[0][1] == [i] else (False, True):
                        judge(ctx, R, p, [("quantile", [i], op, (lev, tv))] + other, seq, "frame" if seq else "array",
                              f"{name} {pk} P(x{i}<={lev}) {op} {np.round(tv, 4)} with {[v[:3] for v in other]} seq={seq}", [0])


def cvar_all(R, p, i, gamma, target, other):
    """Exact: minimum over all tail sizes of the closest distribution with that tail."""
    S = len(R)
    order = np.argsort(R[:, i], kind="stable")
    best, status = None, "infeasible"
    for s in range(S - 1):
        tail = np.zeros(S)
        tail[order[:s + 1]] = 1
        A, b, G, h = other
        m = mats((A + [tail, tail * R[:, i]], b + [gamma, gamma * target], G, h), S)
        st = ref.ep_status(*m)
        if st == "interior":
            status = "interior"
            q = ref.ep_solve(p, *m)
            if q is not None and (best is None or ref.kl(q, p) < ref.kl(best, p)):
                best = q
        elif st != "infeasible" and status == "infeasible":
            status = st
    return status, best


def gen_cvar(tier):
    for pk in PRI:
        for i in range(3):
            for gamma in (0.1, 0.2, 0.4, 0.6):
                for name in SETS:
                    for j, t in enumerate((-0.028, -0.025, -0.02, -0.013, -0.006, 0.004)):
                        if tier == "thorough" or (j + i + int(gamma * 10) + (pk == "u")) % 3 == 0:
                            yield [pk, i, gamma, name, t]


def run_cvar(case, ctx):
    pk, i, gamma, name, t = case
    if True:
        R = SETS[name] * 0.01
        S = len(R)
        p = PRI[pk](S)
        x = R[:, i]
        mu, C = moment(R, p)
        if True:
            for other in ([], [view("mean", [(i + 1) % 3], "=", 0.2, R, p)], [view("mean", [i], "<=", -0.2, R, p)]):
                for seq in (False, True) if not other else (i == 1,):
                    o = rows(other, "mean", R, mu, np.diag(C))
                    prior = p if not other else ref.ep_solve(p, *mats(o, S))
                    st, w = cvar_all(R, prior, i, gamma, t, o)
                    what = f"{name} {pk} CVaR{gamma} of x{i} = {t} with {[v[:3] for v in other]} seq={seq}"
                    names = LAB
                    if st == "infeasible" and (seq or other or i):
                        continue
                    ctx.state()
                    ctx.step()
                    ctx.validated += 1
                    cv = {names[i]: (t, gamma)}
                    try:
                        fv = FlexibleViewsProcessor(pd.DataFrame(R, columns=names), p.copy(), cvar_views=cv, sequential=seq, **payload(other, names))
                    except RuntimeError as exc:
                        ctx.out(f"cvar {st}: error")
                        if st == "interior":
                            ctx.fail(f"{what}: refused ({exc})")
                        continue
                    ctx.out(f"cvar {st}: answered")
                    if st == "infeasible":
                        ctx.fail(f"{what}: unattainable view answered")
                        continue
                    ctx.check(cv == {names[i]: (t, gamma)}, f"{what}: views changed")
                    q = np.ravel(fv.get_posterior_probabilities())
                    k = np.argsort(x, kind="stable")
                    ctx.check(np.all(q >= 0) and abs(q.sum() - 1) < 1e-9, f"{what}: not probabilities")
                    # some lower tail has exactly mass gamma and mean t
                    cs, cm = np.cumsum(q[k]), np.cumsum(q[k] * x[k])
                    ctx.check(any(abs(cs[s] - gamma) < 3e-4 and abs(cm[s] - gamma * t) < 3e-4 * 0.03 for s in range(S - 1)), f"{what}: tail masses {np.round(cs, 4)} tail means {cm / cs}")
                    if other:
                        for (kk, key, op, tv) in other:
                            ctx.check((q @ R[:, key[0]] - tv if kk == "mean" and op == "<=" else abs(q @ R[:, key[0]] - tv)) < 2e-5, f"{what}: mean view lost: {q @ R[:, key[0]]} vs {tv}")
                    if w is not None:
                        ctx.check(ref.kl(q, prior) <= ref.kl(w, prior) + 2e-3, lambda: f"{what}: relative entropy {ref.kl(q, prior):.5f}, a closer tail has {ref.kl(w, prior):.5f}")


def gen_two_tails(tier):
    for i, j in itertools.permutations(range(3), 2):
        if tier == "quick":
            for k, (g1, g2) in enumerate(((0.2, 0.4), (0.4, 0.6), (0.6, 0.2), (0.4, 0.4))):
                yield [["u", "inc"][(i + j) % 2], i, j, g1, g2, "AB"[k % 2], (k + i) % 4, (k + j) // 2 % 2]
            continue
        for pk in PRI:
            for g1, g2 in itertools.product((0.2, 0.4, 0.6), repeat=2):
                for name in SETS:
                    for t in range(4):
                        for o in range(2):
                            yield [pk, i, j, g1, g2, name, t, o]


def run_two_tails(case, ctx):
    """The second tail view keeps the first one and every earlier condition, and stays closest to what they gave."""
    pk, i, j, g1, g2, name, tk, ok = case
    if True:
        R = SETS[name] * 0.01
        S = len(R)
        p = PRI[pk](S)
        mu, C = moment(R, p)
        for t1, t2 in (((-0.02, -0.013), (-0.013, -0.02), (-0.006, -0.02), (-0.02, -0.006))[tk],):
            for other in (([], [view("mean", [3 - i - j], ">=", 0.2, R, p)])[ok],):
                o = rows(other, "mean", R, mu, np.diag(C))
                what = f"{name} {pk} CVaR{g1} of x{i} = {t1} then CVaR{g2} of x{j} = {t2} with {[v[:3] for v in other]}"
                kw = dict(sequential=(i + j) % 2 == 0, **payload(other, LAB))
                mk = lambda cv: np.ravel(FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p.copy(), cvar_views=cv, **kw).get_posterior_probabilities())
                ctx.state()
                ctx.step()
                try:
                    q1 = mk({LAB[i]: (t1, g1)})
                except RuntimeError:
                    ctx.out("first tail unattainable")
                    continue
                x, k = R[:, i], np.argsort(R[:, i], kind="stable")
                cs, cm = np.cumsum(q1[k]), np.cumsum(q1[k] * x[k])
                hit = [s for s in range(S - 1) if abs(cs[s] - g1) < 3e-4 and abs(cm[s] - g1 * t1) < 3e-4 * 0.03]
                if not ctx.check(bool(hit), f"{what}: first tail missing"):
                    continue
                tail = np.zeros(S)
                tail[k[:hit[0] + 1]] = 1
                kept = (o[0] + [tail, tail * x], o[1] + [g1, g1 * t1], o[2], o[3])
                st, w = cvar_all(R, q1, j, g2, t2, kept)
                ctx.step()
                ctx.validated += 1
                try:
                    q = mk({LAB[i]: (t1, g1), LAB[j]: (t2, g2)})
                except RuntimeError as exc:
                    ctx.out(f"second tail {st}: error")
                    if st == "interior" and len(hit) == 1 and min(w) > 1e-6:
                        ctx.fail(f"{what}: refused ({exc})")
                    continue
                ctx.out(f"second tail {st}: answered")
                for a, g, t in ((i, g1, t1), (j, g2, t2)):
                    y, k = R[:, a], np.argsort(R[:, a], kind="stable")
                    cs, cm = np.cumsum(q[k]), np.cumsum(q[k] * y[k])
                    ctx.check(any(abs(cs[s] - g) < 5e-4 and abs(cm[s] - g * t) < 5e-4 * 0.03 for s in range(S - 1)), f"{what}: tail of x{a} lost: masses {np.round(cs, 4)}")
                for (kk, key, op, tv) in other:
                    ctx.check(q @ R[:, key[0]] - tv > -2e-5, f"{what}: mean view lost: {q @ R[:, key[0]]} vs {tv}")
                if w is not None and len(hit) == 1:
                    ctx.check(ref.kl(q, q1) <= ref.kl(w, q1) + 3e-3, lambda: f"{what}: relative entropy {ref.kl(q, q1):.5f}, a closer tail has {ref.kl(w, q1):.5f}")


def tail_profile(p, x, gamma, m):
    """Relative entropy of the closest distribution with tail mass gamma and tail mean m, for every tail size."""
    o = np.argsort(x, kind="stable")
    P, X = p[o], x[o]
    out = []
    for s in range(len(x) - 1):
        if s == 0 or not X[0] < m < X[s]:
            out.append(np.inf)
            continue
        f = lambda t: (lambda w: float(w @ X[:s + 1]) / w.sum() - m)(P[:s + 1] * np.exp(t * (X[:s + 1] - m)))
        lo = hi = 1.0 / np.ptp(X[:s + 1])
        lo = -lo
        while f(lo) > 0 and lo > -600 / np.ptp(X):
            lo *= 2
        while f(hi) < 0 and hi < 600 / np.ptp(X):
            hi *= 2
        if f(lo) > 0 or f(hi) < 0:
            out.append(np.inf)
            continue
        t = brentq(f, lo, hi, xtol=1e-12)
        w = P[:s + 1] * np.exp(t * (X[:s + 1] - m))
        q = np.r_[gamma * w / w.sum(), (1 - gamma) * P[s + 1:] / P[s + 1:].sum()]
        z = q > 0
        out.append(float(np.sum(q[z] * np.log(q[z] / P[z]))))
    return np.array(out)


def gen_long(tier):
    for S in (16, 24) if tier == "quick" else (16, 24, 32):
        for shape in ("grid", "gap", "heavy"):
            for pk in PRI:
                for gi, gamma in enumerate((0.05, 0.1, 0.3, 0.6)):
                    for fi, f in enumerate((0.02, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8)):
                        if tier == "thorough" or (S // 8 + gi + fi) % 4 == 0:
                            yield [S, shape, pk, gamma, f]


def run_long(case, ctx):
    """The best tail lies many scenarios away from the prior quantile."""
    S, shape, pk, gamma, f = case
    i = np.arange(S)
    x = {"grid": (i * 7 % S) - S / 2.0, "gap": np.where(i % 2, (i * 5 % S) * 1.0, (i * 5 % S) - 2.0 * S),
         "heavy": np.sign((i * 7 % S) - S / 2 + 0.5) * ((i * 7 % S) - S / 2 + 0.5) ** 2 / S}[shape] * 0.01
    p = PRI[pk](S)
    xs = np.sort(x)
    m = float(xs[0] + f * (xs[-2] - xs[0]) + 1e-5)
    r = tail_profile(p, x, gamma, m)
    if not np.isfinite(r.min()):
        ctx.out("unattainable")
        return
    ctx.out("attainable")
    q = np.ravel(FlexibleViewsProcessor(pd.DataFrame({"b": x}), p, cvar_views={"b": (m, gamma)}).get_posterior_probabilities())
    ctx.state()
    ctx.step()
    z = q > 0
    kl = float(np.sum(q[z] * np.log(q[z] / p[z])))
    o = np.argsort(x, kind="stable")
    cs, cm = np.cumsum(q[o]), np.cumsum(q[o] * x[o])
    ctx.check(any(abs(cs[k] - gamma) < 1e-4 and abs(cm[k] - gamma * m) < 1e-4 * np.ptp(x) for k in range(S - 1)), f"no tail of mass {gamma} with mean {m}")
    ctx.check(kl <= r.min() + 1e-3, f"relative entropy {kl:.5f}, the tail of {int(r.argmin()) + 1} scenarios has {r.min():.5f}")


def gen_labels(tier):
    for perm in itertools.permutations(range(3)):
        yield [list(perm)]


def run_labels(case, ctx):
    """The same named views on permuted assets/scenarios, in every container."""
    perm = case[0]
    R = SETS["A"] * 0.01
    S = len(R)
    p = PRI["inc"](S)
    views = [view("mean", [0], "=", 0.3, R, p), view("mean", [2, 1], ">=", 0.2, R, p), view("vol", [1], "<=", -0.1, R, p), view("corr", [0, 2], "=", 0.2, R, p)]
    kw = payload(views, LAB)
    for seq in (False, True):
        base = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, sequential=seq, **kw)
        df = pd.DataFrame(R, columns=LAB).iloc[:, perm]
        kw2 = {k: dict(reversed(list(v.items()))) for k, v in payload(views, LAB).items()}
        alt = FlexibleViewsProcessor(df, p, sequential=seq, **kw2)
        ctx.state(2)
        ctx.step(2)
        ctx.close(np.ravel(alt.get_posterior_probabilities()), np.ravel(base.get_posterior_probabilities()), 1e-3, f"columns {perm} seq={seq}")
        m1, c1 = base.get_posterior()
        m2, c2 = alt.get_posterior()
        ctx.check(list(m2.index) == list(df.columns) and list(c2.columns) == list(df.columns), "labels")
        ctx.close(np.asarray(m2[LAB]) * 100, np.asarray(m1[LAB]) * 100, 2e-3, f"columns {perm}: mean by name")
        # rows permuted together with probabilities; labelled prior
        rp = [(3 * i + 1) % S for i in range(S)] if S % 3 else [(2 * i + 1) % S for i in range(S)]
        lab = [f"s{i}" for i in range(S)]
        dfl = pd.DataFrame(R, columns=LAB, index=lab)
        pl = pd.Series(p, index=lab).iloc[rp]
        alt = FlexibleViewsProcessor(dfl, pl, sequential=seq, **payload(views, LAB))
        ctx.step()
        ctx.close(np.ravel(alt.get_posterior_probabilities()), np.ravel(base.get_posterior_probabilities()), 1e-9, f"prior probabilities by label seq={seq}")
        alt = FlexibleViewsProcessor(dfl.iloc[rp], pl.to_numpy(), sequential=seq, **payload(views, LAB))
        ctx.close(np.ravel(alt.get_posterior_probabilities()), np.ravel(base.get_posterior_probabilities())[rp], 1e-3, f"scenario order seq={seq}")
        bad = pd.Series(p, index=[f"x{i}" for i in range(S)])
        ctx.raises(lambda: FlexibleViewsProcessor(dfl, bad, sequential=seq, **payload(views, LAB)), ValueError, "prior probabilities with foreign labels")
    # full vectors of equality views
    mu, C = moment(R, p)
    sd = np.sqrt(np.diag(C))
    t = mu + np.array([0.1, -0.1, 0.05]) * sd
    v = sd * np.array([1.05, 0.97, 1.02])
    ser = pd.Series(t, index=LAB)
    forms = {"dict": dict(zip(LAB, t)), "Series": ser, "Series permuted": ser.iloc[perm], "array": t.copy(), "list": t.tolist(), "column": t.reshape(-1, 1)}
    want = None
    for k, f in forms.items():
        fv = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, mean_views=f)
        ctx.state()
        ctx.step()
        q = np.ravel(fv.get_posterior_probabilities())
        want = q if want is None else want
        ctx.close(q @ R * 100, t * 100, 2e-2, f"mean vector as {k}")
        ctx.close(q, want, 1e-6, f"mean vector as {k} differs from the dict form")
    for arg, val, kind in (("vol_views", v, "vol"), ("var_views", v ** 2, "var")):
        s = pd.Series(val, index=LAB)
        want = None
        for k, f in {"dict": dict(zip(LAB, val)), "Series permuted": s.iloc[perm], "array": val.copy()}.items():
            fv = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, **{arg: f})
            ctx.step()
            q = np.ravel(fv.get_posterior_probabilities())
            want = q if want is None else want
            ctx.close(q @ R ** 2 * 1e4, (v ** 2 + mu ** 2) * 1e4, 5e-3, f"{arg} vector as {k}")
            ctx.close(q, want, 1e-6, f"{arg} as {k}")
    # arrays: assets are addressed by position strings
    a = FlexibleViewsProcessor(R[:, perm], p, mean_views={str(perm.index(0)): t[0]})
    b = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, mean_views={"b": t[0]})
    ctx.close(np.ravel(a.get_posterior_probabilities()), np.ravel(b.get_posterior_probabilities()), 1e-3, "position key")
    # integer column labels that are a permutation of positions address by label
    di = pd.DataFrame(R, columns=[2, 0, 1])
    a = FlexibleViewsProcessor(di, p, mean_views={2: t[0]})
    ctx.close(np.ravel(a.get_posterior_probabilities()), np.ravel(b.get_posterior_probabilities()), 1e-6, "integer label")
    a = FlexibleViewsProcessor(di, p, mean_views={"2": t[0]})
    ctx.close(np.ravel(a.get_posterior_probabilities()), np.ravel(b.get_posterior_probabilities()), 1e-6, "integer label given as a string")
    # a plain number as CVaR view: the 5% tail, by asset or as a vector over all assets
    a = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, cvar_views={LAB[0]: -0.015})
    b2 = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p, cvar_views={LAB[0]: (-0.015, 0.05)})
    ctx.close(np.ravel(a.get_posterior_probabilities()), np.ravel(b2.get_posterior_probabilities()), 1e-9, "CVaR view without tail probability")
    # no views: the prior
    fv = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p)
    ctx.close(np.ravel(fv.get_posterior_probabilities()), p, 1e-12, "no views")
    fv = FlexibleViewsProcessor(pd.DataFrame(R, columns=LAB), p * 7)
    ctx.close(np.ravel(fv.get_posterior_probabilities()), p, 1e-12, "unnormalised prior")
    fv = FlexibleViewsProcessor(R)
    ctx.close(np.ravel(fv.get_posterior_probabilities()), np.ones(S) / S, 1e-12, "default prior")


def gen_synth(tier):
    for n in (1, 2, 3):
        for seed in (0, 7):
            yield [n, seed]


def run_synth(case, ctx):
    """Scenarios synthesised from moments; custom generators."""
    n, seed = case
    mu = np.array([0.01, -0.02, 0.03])[:n]
    C = (np.array([[4, 1, -1], [1, 9, 2], [-1, 2, 1]], float) * 1e-2)[:n, :n]
    names = LAB[:n]
    ms, cs = pd.Series(mu, index=names), pd.DataFrame(C, index=names, columns=names)
    a = FlexibleViewsProcessor(prior_mean=mu, prior_cov=C, num_scenarios=4000, random_state=seed, mean_views={"0": 0.03})
    b = FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs, num_scenarios=4000, random_state=seed, mean_views={"b": 0.03})
    c = FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs.iloc[::-1, ::-1], num_scenarios=4000, random_state=seed, mean_views={"b": 0.03})
    d = FlexibleViewsProcessor(prior_mean=mu, prior_cov=C, num_scenarios=4000, random_state=seed, mean_views={"0": 0.03})
    g = FlexibleViewsProcessor(prior_mean=mu, prior_cov=cs, num_scenarios=4000, random_state=seed, mean_views={"b": 0.03})
    ctx.check(list(g.get_scenarios().columns) == names, "labels of the covariance lost")
    ctx.state(4)
    ctx.step(4)
    Ra = np.asarray(a.get_scenarios())
    ctx.check(Ra.shape == (4000, n), f"shape {Ra.shape}")
    for x, k in ((b, "labelled"), (c, "covariance in another order"), (d, "same seed"), (g, "labelled covariance, plain mean")):
        ctx.close(np.asarray(x.get_scenarios()), Ra, 1e-12, k)
        ctx.close(np.ravel(x.get_posterior_probabilities()), np.ravel(a.get_posterior_probabilities()), 1e-12, k)
    q = np.ravel(a.get_posterior_probabilities())
    ctx.close(q @ Ra[:, 0], 0.03, 1e-4, "mean view on synthetic scenarios")
    # population moments: 4000 normal draws, 6 standard errors
    se = np.sqrt(np.diag(C) / 4000)
    ctx.check(np.all(np.abs(Ra.mean(0) - mu) < 6 * se), f"synthetic mean {Ra.mean(0)} vs {mu}")
    S = np.cov(Ra.T, bias=True).reshape(n, n)
    tol = 6 * np.sqrt((np.outer(np.diag(C), np.diag(C)) + C ** 2) / 4000) + 2e-6
    ctx.check(np.all(np.abs(S - C) < tol), f"synthetic covariance {S} vs {C}")
    calls = []

    def gen(m, V, k, rng):
        calls.append((m.copy(), V.copy(), k))
        return np.tile(SETS["A"][:, :n] * 0.01, (k // 7, 1))

    fv = FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs, num_scenarios=14, distribution_fn=gen, mean_views={"b": 0.005})
    ctx.close(np.asarray(fv.get_scenarios()), np.tile(SETS["A"][:, :n] * 0.01, (2, 1)), 0, "custom generator's scenarios")
    ctx.close(calls[0][0], mu, 1e-12, "generator mean")
    ctx.close(calls[0][1], C, 2e-6, "generator covariance")
    ctx.check(calls[0][2] == 14, "generator count")
    ms2 = np.asarray(fv.get_scenarios())
    for k, kw in {"none": {}, "volatility": dict(vol_views={"b": 0.02}), "skewness": dict(skew_views={"b": 0.1}), "mean and volatility": dict(mean_views={"b": 0.002}, vol_views={"b": 0.02})}.items():
        u = FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs, num_scenarios=14, distribution_fn=gen, **kw)
        e = FlexibleViewsProcessor(pd.DataFrame(ms2, columns=names), **kw)
        ctx.close(np.ravel(u.get_posterior_probabilities()), np.ravel(e.get_posterior_probabilities()), 1e-9, f"views ({k}) on generated scenarios and on the same scenarios given")
        if not kw:
            ctx.close(np.ravel(u.get_posterior_probabilities()), np.ones(14) / 14, 1e-12, "no views on generated scenarios")
        for g1, g2 in zip(u.get_posterior(), e.get_posterior()):
            ctx.close(np.asarray(g1), np.asarray(g2), 1e-9, f"moments, views ({k}) on generated scenarios")
    ctx.raises(lambda: FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs, num_scenarios=14, distribution_fn=lambda m, V, k: np.zeros((k - 1, n))), ValueError, "generator of the wrong size")
    ctx.raises(lambda: FlexibleViewsProcessor(prior_mean=ms), ValueError, "mean without covariance")
    if n > 1:
        ctx.raises(lambda: FlexibleViewsProcessor(prior_mean=ms, prior_cov=cs.rename(index={"b": "z"}, columns={"b": "z"})), ValueError, "foreign covariance labels")
        ctx.raises(lambda: FlexibleViewsProcessor(prior_mean=mu, prior_cov=C[:1, :1]), ValueError, "covariance shape")


def gen_bad(tier):
    for i in range(8):
        yield [i]


def run_bad(case, ctx):
    R = SETS["A"] * 0.01
    df = pd.DataFrame(R, columns=LAB)
    S = len(R)
    nan, inf = float("nan"), float("inf")
    F = FlexibleViewsProcessor
    bad = {
        "unknown asset": dict(mean_views={"z": 0.01}), "unknown pair": dict(mean_views={("b", "z"): 0.01}), "unknown vol": dict(vol_views={"z": 0.01}),
        "unknown corr": dict(corr_views={("b", "z"): 0.1}), "unknown rank": dict(rank_mean=["b", "z"]), "unknown quantile": dict(quantile_views={"z": (0.0, 0.5)}),
        "unknown cvar": dict(cvar_views={"z": (-0.02, 0.2)}), "rank of one": dict(rank_mean=["b"]),
        "nan mean": dict(mean_views={"b": nan}), "inf mean": dict(mean_views={"b": inf}), "nan op": dict(mean_views={"b": (">=", nan)}),
        "unknown operator": dict(mean_views={"b": ("!=", 0.01)}), "zero vol": dict(vol_views={"b": 0.0}), "negative vol": dict(vol_views={"b": -0.01}),
        "negative variance": dict(var_views={"b": -1e-4}), "corr > 1": dict(corr_views={("b", "a"): 1.2}), "corr < -1": dict(corr_views={("b", "a"): ("<=", -1.5)}),
        "quantile probability 0": dict(quantile_views={"b": (0.0, 0.0)}), "quantile probability 1": dict(quantile_views={"b": (0.0, 1.0)}),
        "quantile without probability": dict(quantile_views={"b": 0.0}), "vector length": dict(mean_views=[0.01, 0.02]), "vol vector length": dict(vol_views=[0.01] * 4),
        "foreign Series": dict(mean_views=pd.Series([0.01, 0.0, 0.0], index=["b", "a", "z"])), "reversed between": dict(mean_views={"b": ("between", 0.02, 0.01)}),
        "nan between": dict(mean_views={"b": ("between", nan, 0.01)}), "cvar gamma 0": dict(cvar_views={"b": (-0.02, 0.0)}), "cvar gamma 1": dict(cvar_views={"b": (-0.02, 1.0)}),
        "cvar nan": dict(cvar_views={"b": (nan, 0.1)}), "cvar beyond the scenarios": dict(cvar_views={"b": (-0.5, 0.1)}),
        "mean beyond the scenarios": dict(mean_views={"b": 0.05}), "mean below": dict(mean_views={"b": at_most(-0.04)}),
        "contradictory means": dict(mean_views={("b", "a"): at_least(0.01), ("a", "b"): at_least(0.01)}),
        "rank against pair": dict(rank_mean=["b", "a"], mean_views={("a", "b"): at_least(0.01)}),
        "volatility beyond the scenarios": dict(vol_views={"b": 0.1}), "quantile impossible": dict(quantile_views={"b": (-0.9, 0.2)}),
    }
    for k, kw in list(bad.items())[case[0]::8]:
        for seq in (False, True):
            ctx.state()
            ctx.raises(lambda: F(df, sequential=seq, **kw), (ValueError, RuntimeError, TypeError, KeyError), f"{k} seq={seq}")
    if case[0]:
        return
    for k, fn in {"at_least nan": lambda: at_least(nan), "at_most inf": lambda: at_most(inf), "between reversed": lambda: between(2, 1), "between nan": lambda: between(nan, 1),
                  "above nan": lambda: above(nan), "below -inf": lambda: below(-inf)}.items():
        ctx.raises(fn, ValueError, k)
    for k, pr in {"short": np.ones(S - 1), "negative": [-1.0] + [1.0] * (S - 1), "zero": [0.0] + [1.0] * (S - 1), "nan": [nan] + [1.0] * (S - 1)}.items():
        ctx.raises(lambda: F(df, pr, mean_views={"b": 0.001}), ValueError, f"prior {k}")
    ctx.check(at_least(0.5) == (">=", 0.5) and at_most(0.5) == ("<=", 0.5) and above(0.5) == (">", 0.5) and below(0.5) == ("<", 0.5) and between(0.1, 0.2) == ("between", 0.1, 0.2), "helpers")


FAMILIES = [
    Family("single view", gen_single, run_single, "every kind, asset or pair, 7 operators, 5 targets, 2 priors, 2 scales, both modes"),
    Family("pairs of views", gen_pairs, run_pairs, "all pairs of 11 views x 9 operator pairs x both modes x both containers"),
    Family("triples of views", gen_triples, run_triples, "triples of 11 views x 4 operator patterns x both modes"),
    Family("several conditions on one quantity", gen_multi, run_multi, "all pairs and triples of 7 conditions on one mean, spread, volatility, variance, skewness or correlation; priors with 99.95% on one scenario"),
    Family("two tails", gen_two_tails, run_two_tails, "ordered pairs of assets x tail probabilities x targets, with and without a mean view: the second tail view keeps the first"),
    Family("rankings", gen_rank, run_rank, "all orders of 2 and 3 assets with and without other views, both modes"),
    Family("quantiles", gen_quant, run_quant, "all levels x probabilities x operators, alone and with mean or volatility views"),
    Family("tail expectations", gen_cvar, run_cvar, "tail probabilities x targets x assets against the best of all tail sizes"),
    Family("long tails", gen_long, run_long, "16-24 (32) scenarios x 3 shapes x tail probabilities x targets against the closed-form profile over all tail sizes"),
    Family("labels and containers", gen_labels, run_labels, "all asset orders, permuted views, labelled priors, vectors in every container"),
    Family("synthesised scenarios", gen_synth, run_synth, "moments-only priors, seeds, custom generators"),
    Family("malformed and contradictory", gen_bad, run_bad, "unknown labels, non-finite or out-of-range targets, contradictions"),
]
