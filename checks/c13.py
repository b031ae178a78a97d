"""C13: entropy pooling returns the closest distribution satisfying the views."""
import itertools
import numpy as np
from mc.core import Family
from mc import ref
from pyvallocation.views import entropy_pooling

LEVEL = "model_checking"
RULE = "case = one prior x one set of view rows (values, targets, directions) of a completely enumerated alphabet"
ASSUMPTIONS = ["the total-probability row is among the equality rows, as documented and as the library does itself",
               "views attainable only by giving some scenario zero probability may be refused (the stated domain has q > 0); if answered, the views must hold",
               "posterior compared at 3e-4 (the dual solver's own accuracy), views at 2e-4 of the row scale"]
PRIORS = {"u": None, "inc": "inc", "dec": "dec", "spike": "spike", "tiny": "tiny"}


def prior(kind, S):
    v = {"u": np.ones(S), "inc": np.arange(1.0, S + 1), "dec": np.arange(float(S), 0, -1),
         "spike": np.array([20.0] + [1.0] * (S - 1)), "tiny": np.array([1.0] * (S - 1) + [1e-4])}[kind]
    return v / v.sum()


def build(S, rows, ops, targets, scale):
    """rows: list of integer tuples, op in '=', '<', '>'."""
    A, b, G, h = [np.ones(S)], [1.0], [], []
    for r, o, t in zip(rows, ops, targets):
        x = np.array(r, float) * scale
        t = t * scale
        if o == "=":
            A.append(x)
            b.append(t)
        elif o == "<":
            G.append(x)
            h.append(t)
        else:
            G.append(-x)
            h.append(-t)
    return np.array(A), np.array(b), (np.array(G) if G else None), (np.array(h) if G else None)


def judge(ctx, p, A, b, G, h, call, what):
    """call() is the implementation; compare with the exact reference."""
    st = ref.ep_status(A, b, G, h)
    ctx.state()
    ctx.step()
    ctx.validated += 1
    try:
        q = call()
    except RuntimeError as exc:
        ctx.out(f"{st}: error")
        if st == "interior":
            ctx.fail(f"{what}: attainable views refused ({exc})")
        return None
    except Exception as exc:  # noqa: BLE001
        ctx.fail(f"{what}: {type(exc).__name__}: {exc}")
        return None
    ctx.out(f"{st}: answered")
    if st == "infeasible":
        ctx.fail(f"{what}: unattainable views answered with {np.round(np.ravel(q), 5)}")
        return None
    S = A.shape[1]
    ctx.check(np.shape(q) == (S, 1), f"{what}: shape {np.shape(q)}")
    q = np.ravel(q)
    ctx.check(np.all(np.isfinite(q)) and np.all(q >= 0) and abs(q.sum() - 1) < 1e-9, f"{what}: not a probability vector {q}")
    res = np.abs(A @ q - b) / np.maximum(np.abs(A).max(1), 1e-12)
    ctx.check(res.max() <= 2e-4, lambda: f"{what}: equality views missed by {res} of the row scale, q={np.round(q, 6)}")
    if G is not None:
        gap = (G @ q - h) / np.maximum(np.abs(G).max(1), 1e-12)
        ctx.check(gap.max() <= 2e-4, lambda: f"{what}: inequality views violated by {gap} of the row scale, q={np.round(q, 6)}")
    if st == "interior":
        w = ref.ep_solve(p, A, b, G, h)
        if w is None:
            ctx.out("reference unavailable")
        else:
            ctx.check(np.abs(q - w).max() <= 3e-4, lambda: f"{what}: not the closest distribution: KL {ref.kl(q, p):.8f} vs {ref.kl(w, p):.8f}; q={np.round(q, 6)} closest={np.round(w, 6)}")
            if np.abs(w - p).max() < 1e-9:
                ctx.out("null view")
                ctx.check(np.abs(q - p).max() <= 3e-4, f"{what}: views already hold but the prior changed")
    return q


def gen_one(tier):
    vals = (-2, -1, 0, 1, 3)
    S = 4
    seen = []
    for x in itertools.combinations_with_replacement(vals, S):
        seen.append(x)
    if tier == "thorough":
        seen = list(itertools.product(vals, repeat=S))
    else:
        seen = [x[1:] + x[:1] if i % 2 else x for i, x in enumerate(seen)][::3]
    for x in seen:
        lo, hi = min(x), max(x)
        ts = [lo, lo + 0.02, (3 * lo + hi) / 4, (lo + hi) / 2, hi - 0.3, hi - 0.02, hi, "prior", lo - 0.5]
        if lo == hi:
            ts = [lo, lo - 0.5]
        for pk in ("u", "inc", "spike", "tiny"):
            for scale in (0.01, 1.0) + ((1e-4, 100.0) if tier == "thorough" else ()):
                yield [list(x), pk, scale, ts]


def run_one(case, ctx):
    x, pk, scale, ts = case
    S = len(x)
    p = prior(pk, S)
    n = sum(x) % 3
    for i, t in enumerate(ts):
        tv = float(p @ np.array(x)) if t == "prior" else t
        for j, op in enumerate(("=", "<", ">")):
            far = tv < min(x)
            if far and (pk != "u" or op == ">" or scale == 0.01 and op == "="):
                continue  # refusals cost 1 s each: only one prior
            A, b, G, h = build(S, [x], [op], [tv], scale)
            for m in (None, "L-BFGS-B"):
                if far and m:
                    continue
                judge(ctx, p, A, b, G, h, lambda: entropy_pooling(p, A, b, G, h, m), f"x={x} scale={scale} prior={pk} E {op} {t} method={m}")


ROWS = [(-2, -1, 0, 1, 3), (1, -1, 2, 0, -2), (1, 1, 0, 0, 0), (0, 0, 1, 1, 1), (4, 1, 0, 1, 9), (-1, 0, 2, -1, 1)]


def gen_two(tier):
    for r in itertools.combinations(range(len(ROWS)), 2):
        for ops in itertools.product("=<>", repeat=2):
            for pk in ("u", "dec") + (("tiny", "spike") if tier == "thorough" else ()):
                for scale in (0.01,) + ((1.0,) if tier == "thorough" else ()):
                    yield [list(r), list(ops), pk, scale]


def run_two(case, ctx):
    rr, ops, pk, scale = case
    rows = [ROWS[i] for i in rr]
    p = prior(pk, 5)
    q = [(0.2, 0.5, 0.8)] * 2
    bad = 0
    for f in itertools.product((-0.05, 0.1, 0.5, 0.9, "mid"), repeat=2):
        ts = []
        for r, u in zip(rows, f):
            lo, hi = min(r), max(r)
            ts.append(float(p @ np.array(r)) if u == "mid" else lo + u * (hi - lo))
        A, b, G, h = build(5, rows, ops, ts, scale)
        st = ref.ep_status(A, b, G, h)
        if st == "infeasible":
            bad += 1
            if bad > 1 or (sum(rr) + len(set(ops)) + (pk == "dec")) % 4:
                ctx.out("infeasible: left to the other cases (1 s refusals)")
                continue
        judge(ctx, p, A, b, G, h, lambda: entropy_pooling(p, A, b, G, h), f"rows={rows} ops={ops} targets={ts} prior={pk} scale={scale}")


def gen_three(tier):
    for r in itertools.combinations(range(len(ROWS)), 3):
        for ops in itertools.product("=<>", repeat=3):
            yield [list(r), list(ops)]


def run_three(case, ctx):
    """Targets are the values at a known positive distribution q*, so the views are attainable by construction."""
    rr, ops = case
    rows = [ROWS[i] for i in rr]
    p = prior("u", 5)
    for v in ((1, 2, 3, 4, 5), (5, 1, 1, 1, 5), (1, 8, 1, 8, 1)):
        qs = np.array(v, float) / sum(v)
        for slack in (0.0, 0.1):
            ts = []
            for r, o in zip(rows, ops):
                t = float(qs @ np.array(r))
                ts.append(t + (slack if o == "<" else -slack if o == ">" else 0.0))
            for scale in (0.01, 1.0):
                A, b, G, h = build(5, rows, ops, ts, scale)
                judge(ctx, p, A, b, G, h, lambda: entropy_pooling(p, A, b, G, h), f"rows={rows} ops={ops} targets={ts} scale={scale}")


def gen_large(tier):
    for S in (2, 3, 12, 60) + ((400,) if tier == "thorough" else ()):
        for pk in ("u", "inc", "tiny"):
            for op in "=<>":
                yield [S, pk, op]


def run_large(case, ctx):
    S, pk, op = case
    x = np.sort(((np.arange(S) * 37) % S - S / 3.0) / S)[np.argsort((np.arange(S) * 7 + 3) % S, kind="stable")]
    p = prior(pk, S)
    m = float(p @ x)
    for frac in (-0.8, -0.3, -0.01, 0.0, 0.01, 0.3, 0.8):
        t = m + frac * ((x.max() - m) if frac > 0 else (m - x.min()))
        A, b, G, h = build(S, [x], [op], [t], 1.0)
        judge(ctx, p, A, b, G, h, lambda: entropy_pooling(p, A, b, G, h), f"S={S} prior={pk} E {op} mean{frac:+}")


ROWS8 = [(-2, -1, 0, 1, 3, 2, -1, 0), (1, -1, 2, 0, -2, 1, 0, -1), (1, 1, 0, 0, 0, 0, 1, 0), (4, 1, 0, 1, 9, 4, 1, 0), (-1, 0, 2, -1, 1, 0, 1, 2), (0, 0, 1, 1, 1, 0, 0, 1)]


def gen_many(tier):
    for k in (4, 5, 6):
        for i, ops in enumerate(itertools.product("=<>", repeat=k)):
            if ops.count("=") > 3 or (tier == "quick" and k > 4 and (i + sum(map(ord, ops))) % (5, 23)[k - 5]):
                continue
            for rot in ((i % 6,) if tier == "quick" else range(6)):
                yield [list(ops), rot]


def run_many(case, ctx):
    """Four to six views at once; every view is tight, slack or (as inequality) far from binding around a known distribution."""
    ops, rot = case
    k = len(ops)
    rows = [ROWS8[(rot + i) % 6] for i in range(k)]
    for pk, v in (("u", (1, 2, 3, 4, 5, 4, 3, 2)), ("dec", (3, 1, 1, 1, 3, 2, 2, 6))):
        p = prior(pk, 8)
        qs = np.array(v, float) / sum(v)
        for pat in ((0,), (0, 1), (1, 0, 2), (2,)):
            ts = []
            for i, (r, o) in enumerate(zip(rows, ops)):
                slack = (0.0, 0.1, 1.5)[pat[i % len(pat)]]
                ts.append(float(qs @ np.array(r)) + (slack if o == "<" else -slack if o == ">" else 0.0))
            A, b, G, h = build(8, rows, ops, ts, 0.01)
            judge(ctx, p, A, b, G, h, lambda: entropy_pooling(p, A, b, G, h), f"rows={rows} ops={ops} targets={ts} prior={pk}")


def gen_forms(tier):
    for i in range(2):
        yield [i]


def run_forms(case, ctx):
    """Input containers, unnormalised priors, invalid input, and no input mutation."""
    x = np.array([-0.02, -0.01, 0.0, 0.01, 0.03])
    S = 5
    if case[0] == 0:
        for raw in ([1, 1, 1, 1, 1], [1, 2, 3, 4, 5], [0.2] * 5, [2.0, 1, 1, 1, 5]):
            p = np.array(raw, float) / np.sum(raw)
            A = np.vstack([np.ones(S), x])
            b = np.array([1.0, 0.008])
            G = np.array([[1.0, 1, 0, 0, 0]])
            h = np.array([0.25])
            w = ref.ep_solve(p, A, b, G, h)
            forms = {
                "arrays": (np.array(raw, float), A, b, G, h), "lists": (list(raw), A.tolist(), b.tolist(), G.tolist(), h.tolist()),
                "columns": (np.array(raw, float).reshape(-1, 1), A, b.reshape(-1, 1), G, h.reshape(-1, 1)),
                "fortran": (np.array(raw, float), np.asfortranarray(A), b, np.asfortranarray(G), h),
            }
            for k, args in forms.items():
                keep = [np.array(a, float).copy() for a in args]
                ctx.state()
                ctx.step()
                q = entropy_pooling(*args)
                ctx.close(np.ravel(q), w, 3e-4, f"{k} prior={raw}")
                ctx.check(all(np.array_equal(np.asarray(a, float), c) for a, c in zip(args, keep)), f"{k}: inputs modified")
                q2 = entropy_pooling(*args)
                ctx.check(np.array_equal(q, q2), f"{k}: second call differs")
                perm = [3, 0, 4, 2, 1]
                q3 = entropy_pooling(np.array(raw, float)[perm], A[:, perm], b, G[:, perm], h)
                ctx.close(np.ravel(q3), np.ravel(q)[perm], 6e-4, f"{k}: scenario order matters")
                qe = entropy_pooling(args[0], args[1], args[2])
                ctx.close(np.ravel(qe), ref.ep_solve(p, A, b), 3e-4, f"{k}: no inequalities")
    else:
        A, b = np.vstack([np.ones(S), x]), np.array([1.0, 0.0])
        nan, inf = float("nan"), float("inf")
        for raw in ([0, 1, 1, 1, 1], [-1, 1, 1, 1, 1], [nan, 1, 1, 1, 1], [inf, 1, 1, 1, 1], [0, 0, 0, 0, 0], []):
            ctx.state()
            ctx.raises(lambda: entropy_pooling(np.array(raw, float), A, b), Exception, f"prior {raw}")
        for m in ("SLSQP", "nelder-mead", "tnc"):
            ctx.raises(lambda: entropy_pooling(np.ones(S) / S, A, b, method=m), ValueError, f"method {m}")
        for bad in (np.array([1.0, nan]), np.array([1.0, inf])):
            ctx.raises(lambda: entropy_pooling(np.ones(S) / S, A, bad), Exception, f"target {bad}")
        for kw in (dict(G=x.reshape(1, -1)), dict(h=np.array([0.0])), dict(G=x.reshape(1, -1), h=np.array([0.0, 1.0])), dict(G=x[:4].reshape(1, -1), h=np.array([0.0]))):
            ctx.raises(lambda: entropy_pooling(np.ones(S) / S, A, b, **kw), Exception, f"inequalities {sorted(kw)} of mismatched shape")
        ctx.raises(lambda: entropy_pooling(np.ones(4) / 4, A, b), Exception, "prior of the wrong length")
        ctx.raises(lambda: entropy_pooling(np.ones(S) / S, A, np.array([1.0, 0.0, 0.0])), Exception, "targets of the wrong length")


FAMILIES = [
    Family("one view", gen_one, run_one, "integer values in {-2..3}^4 x targets below/at/inside/at prior/outside x {=,<=,>=} x 4 priors x scales x both methods"),
    Family("two views", gen_two, run_two, "all pairs of 6 rows x 9 direction pairs x 25 target pairs x priors on 5 scenarios"),
    Family("three views", gen_three, run_three, "all triples of 6 rows x 27 directions, targets attained by known distributions with and without slack"),
    Family("many views", gen_many, run_many, "four to six views on 8 scenarios x directions (all for four; a regular part of five and six; everything when thorough) x priors x tight/slack patterns"),
    Family("scenario counts", gen_large, run_large, "2..60 (400) scenarios, 7 targets, 3 directions, 3 priors"),
    Family("containers and rejection", gen_forms, run_forms, "list/array/column/fortran inputs, permutations, invalid priors, targets, methods"),
]
