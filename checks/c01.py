"""C01: assembled matrices describe exactly the stated feasible set."""
import itertools
import numpy as np
from mc.core import Family
from mc import ref
from pyvallocation.utils.constraints import Constraints, build_G_h_A_b

LEVEL = "model_checking"
RULE = "case = one full constraint specification (product of the per-kind menus); states = weight vectors on which membership by matrices was compared with membership by rules"
ASSUMPTIONS = ["all numbers are dyadic so both membership tests are exact", "n_assets <= 3 (4 in thorough)"]


def menus(n, tier):
    last = n - 1
    bounds = {
        "none": None, "tup": (-0.25, 0.5), "tup_lo": (0.25, None), "tup_hi": (None, 0.5), "tup_int": (0, 1), "tup_nn": (None, None),
        "list": [(-0.25 + 0.125 * i, 0.5 + 0.125 * i) for i in range(n)],
        "list_open": [((None, 0.5), (0.25, None), (None, None), (0, 1))[(i + n) % 4] for i in range(n)],
        "dict": {last: (0.125, 0.75)}, "dict_open": {0: (None, 0.375), last: (0.25, None)}, "dict_empty": {},
        "tup_zero": (-0.25, 0), "list_zero": [((0, 0.5), (-0.25, 0.0), (0.0, None))[(i + n) % 3] for i in range(n)],
        "dict_zero": {0: (0, 0.5), last: (0.0, None)}, "dict_zero_hi": {last: (None, 0.0)},
    }
    rel = {"none": None, "empty": []}
    if n > 1:
        rel["one"] = [(0, last, 0.25)]
        rel["neg"] = [(last, 0, -0.125)]
        rel["two"] = [(0, last, 0.5), (last, 0, 0)]
    group = {"none": None, "one": {"g": ([last], 0.125, 0.625)}, "all": {"g": (list(range(n)), -0.5, 0)},
             "two": {"a": ([0], 0, 0.5), "b": (tuple(range(n)), 0.25, 0.75)}}
    row = [1.0, -2.0, 0.5, 3.0][:n]
    G = {"none": None, "one": [(row, 0.375)], "two": [(np.array(row[::-1]), -0.25), ([1] * n, 0)]}
    A = {"none": None, "one": [(row, 0.25)], "two": [([1] + [0] * (n - 1), 0.5), (row[::-1], 0)]}
    tw = {"none": None, "1": 1.0, "int": 2, "frac": 0.625, "neg": -1.0, "zero": 0}
    lo = {"T": True, "F": False}
    return dict(long_only=lo, total_weight=tw, bounds=bounds, relative_bounds=rel, group_constraints=group,
                additional_G_h=G, additional_A_b=A)


def gen(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        m = menus(n, tier)
        keys = list(m)
        for combo in itertools.product(*(m[k] for k in keys)):
            if n == 4 and list(combo).count("none") < 3:
                continue
            yield [n, list(combo)]


_GRID = {}


def grid(n):
    if n not in _GRID:
        vals = np.arange(-0.5, 1.26, 0.125) if n <= 2 else np.arange(-0.25, 0.89, 0.125)
        if n == 4:
            vals = np.array([-0.125, 0.0, 0.125, 0.25, 0.5, 0.75])
        g = np.array(list(itertools.product(vals, repeat=n)))
        # complete the last coordinate so that budget rows of the menu are met by many points
        extra = []
        for tw in (1.0, 2.0, 0.625, -1.0, 0.0):
            h = g[: len(g) // 1].copy()
            h[:, -1] = tw - h[:, :-1].sum(axis=1)
            extra.append(np.unique(h, axis=0))
        _GRID[n] = np.vstack([g] + extra)
    return _GRID[n]


def member_rules(W, rl):
    ok = np.ones(len(W), bool)
    for c, l, u in rl:
        x = W @ np.asarray(c, float)
        if l is not None:
            ok &= x >= l
        if u is not None:
            ok &= x <= u
    return ok


def member_mat(W, G, h, A, b):
    ok = np.ones(len(W), bool)
    if G is not None and np.size(G):
        ok &= np.all(W @ np.asarray(G, float).T <= np.asarray(h, float).ravel(), axis=1)
    if A is not None and np.size(A):
        ok &= np.all(W @ np.asarray(A, float).T == np.asarray(b, float).ravel(), axis=1)
    return ok


def run(case, ctx):
    n, combo = case
    m = menus(n, "quick")
    spec = {k: m[k][c] for k, c in zip(m, combo)}
    W = grid(n)
    want = member_rules(W, ref.rules(n, {k: v for k, v in spec.items() if not (k != "total_weight" and v is None)}))
    forms = {
        "keyword": lambda: build_G_h_A_b(n, **spec),
        "typed": lambda: Constraints(**spec).to_matrices(n),
        "dict": lambda: Constraints.from_dict(dict(spec)).to_matrices(n),
        "arrays": lambda: build_G_h_A_b(n, **spec, return_none_if_empty=False),
    }
    for name, fn in forms.items():
        G, h, A, b = fn()
        ctx.step()
        for M, v, what in ((G, h, "inequality"), (A, b, "equality")):
            ctx.check((M is None) == (v is None), f"{name}: {what} matrix/rhs presence differs for {spec}")
            if M is not None:
                ctx.check(np.asarray(M).ndim == 2 and np.asarray(M).shape == (np.asarray(v).size, n), f"{name}: {what} shapes {np.shape(M)} {np.shape(v)} for {spec}")
                ctx.check(np.asarray(M).dtype.kind == "f" and np.asarray(v).dtype.kind == "f", f"{name}: {what} not floating point for {spec}")
        if name == "arrays":
            ctx.check(all(x is not None for x in (G, h, A, b)), f"arrays form returned None for {spec}")
        got = member_mat(W, G, h, A, b)
        bad = np.nonzero(got != want)[0]
        ctx.check(len(bad) == 0, lambda: f"{name}: membership differs at w={W[bad[0]].tolist()} (matrices say {bool(got[bad[0]])}) for {spec}")
        ctx.state(len(W))
    ctx.out("inside" if want.any() else "empty")


# ---------------------------------------------------------------- rejection
def bad_specs(n):
    last = n
    nan = float("nan")
    B = []
    for b in [(0.5, 0.25), (0.1,), (0, 0.5, 1), (nan, 1.0), (0.0, nan), ("a", 1), {last: (0, 1)}, {-1: (0, 1)}, {0: (0.5, 0.25)}, {0: (0, 0.5, 1)},
              {0: (nan, None)}, {0: (None, nan)}, [(0, 1)] * (n + 1), [(0, 1)] * (n - 1) if n > 1 else [(0, 1)] * 3, [(0, 1)] * (n - 1) + [(0.5, 0.25)],
              [(0, 1)] * (n - 1) + [(0, nan)], [(0, 1)] * (n - 1) + [("x", 1)]]:
        B.append(dict(bounds=b))
    if n > 1:
        for r in [(0, 0, 0.1), (0, n, 0.1), (n, 0, 0.1), (-1, 0, 0.1), (0, -1, 0.1), (0, 1), (0, 1, nan), (0, 1, "a"), (0, 1, 0.1, 0.2)]:
            B.append(dict(relative_bounds=[r]))
            B.append(dict(relative_bounds=[(0, 1, 0.5), r]))
    for g in [([n], 0, 1), ([-1], 0, 1), ([0], 0.75, 0.5), ([0], nan, 1), ([0], 0, nan), ([0], "a", 1)]:
        B.append(dict(group_constraints={"g": g}))
        B.append(dict(group_constraints={"ok": ([0], 0, 1), "g": g}))
    for k in ("additional_G_h", "additional_A_b"):
        for r in [([1.0] * (n + 1), 1.0), ([nan] * n, 1.0), ([1.0] * (n - 1) + [nan], 1.0), ([1.0] * n, nan), ([1.0] * n, "a")] + ([([1.0] * (n - 1), 1.0)] if n > 1 else []):
            B.append({k: [r]})
            B.append({k: [([1.0] * n, 1.0), r]})
    for t in [nan, float("inf"), "1", [1.0]]:
        B.append(dict(total_weight=t))
    return B


def gen_bad(tier):
    for n in (1, 2, 3):
        for i in range(len(bad_specs(n))):
            for base in range(3):
                yield [n, i, base]


def run_bad(case, ctx):
    n, i, base = case
    spec = dict([{}, dict(long_only=False), dict(total_weight=None, long_only=False)][base])
    spec.update(bad_specs(n)[i])
    ctx.state()
    ctx.raises(lambda: build_G_h_A_b(n, **spec), Exception, f"n={n} malformed {spec} (keyword)")
    ctx.raises(lambda: Constraints(**spec).to_matrices(n), Exception, f"n={n} malformed {spec} (typed)")
    ctx.raises(lambda: Constraints.from_dict(spec).to_matrices(n), Exception, f"n={n} malformed {spec} (dict)")
    ctx.out("rejected")


def gen_n(tier):
    yield from [0, -1, -3, 2.0, "3", None]


def run_n(case, ctx):
    ctx.state()
    ctx.raises(lambda: build_G_h_A_b(case), Exception, f"n_assets={case!r}")
    ctx.out("rejected")


# ---------------------------------------------------------------- defaults, immutability, unknown keys
def gen_misc(tier):
    yield "default"
    yield "frozen"
    yield "unknown"
    yield "nomutate"


def run_misc(case, ctx):
    ctx.state()
    ctx.out(case)
    if case == "default":
        for n in (1, 2, 3):
            W = grid(n)
            want = member_rules(W, ref.rules(n, {}))
            for f in (lambda: build_G_h_A_b(n), lambda: Constraints().to_matrices(n), lambda: Constraints.from_dict({}).to_matrices(n)):
                ctx.step()
                ctx.check(np.array_equal(member_mat(W, *f()), want), f"default specification is not the long-only simplex for n={n}")
    elif case == "frozen":
        c = Constraints()
        for attr in ("long_only", "total_weight", "bounds"):
            ctx.raises(lambda: setattr(c, attr, None), Exception, f"Constraints.{attr} is assignable")
    elif case == "unknown":
        ctx.step()
        c = Constraints.from_dict({"long_only": False, "whatever": 3, "bounds": (-1.0, 1.0)})
        ctx.check(c == Constraints(long_only=False, bounds=(-1.0, 1.0)), "from_dict with unknown key")
    else:
        import copy
        for n in (2, 3):
            m = menus(n, "quick")
            for k, opts in m.items():
                for nm, v in opts.items():
                    spec = {k: v}
                    snap = copy.deepcopy(spec)
                    ctx.step()
                    build_G_h_A_b(n, **spec)
                    ctx.check(repr(spec) == repr(snap), f"specification mutated: {snap} -> {spec}")


FAMILIES = [
    Family("membership", gen, run, "full product of the menus of every constraint kind, n<=3, grid of weights straddling all bounds"),
    Family("reject", gen_bad, run_bad, "every single-fault malformed specification x 3 base specifications x 3 forms"),
    Family("n_assets", gen_n, run_n, "invalid universe sizes"),
    Family("misc", gen_misc, run_misc, "defaults, immutability, unknown keys, argument preservation"),
]
