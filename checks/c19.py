"""C19: repricing composes and matches its closed forms."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from pyvallocation.utils.projection import reprice_exp, reprice_taylor, make_repricing_fn, compose_repricers, project_scenarios, simulate_paths
from pyvallocation.portfolioapi import PortfolioWrapper

LEVEL = "model_checking"
RULE = "case = one repricing specification (coefficients, or ordered set of instruments with their drivers); every driver table of the alphabet is priced with it"
ASSUMPTIONS = ["pricing functions supplied by the user are vectorised over scenarios (documented)"]
TAB = {1: [[0.0], [0.5], [-1.25], [2.0]], 2: [[0.0, 1.0], [0.5, -0.5], [-1.25, 0.25], [2.0, 3.0], [1.0, 0.0]], 3: [[0.0, 1.0, -1.0], [0.5, -0.5, 0.125], [-1.25, 0.25, 2.0], [1.0, 0.5, 0.0]]}
COEF = (None, 0.0, 2.0, -0.5, "vec")


# ---------------------------------------------------------------- closed forms
def gen_closed(tier):
    for n in (1, 2, 3):
        for th, de, ga in itertools.product(COEF, repeat=3):
            for tau in (0.0, 0.25, 1.0):
                yield {"n": n, "theta": th, "delta": de, "gamma": ga, "tau": tau}


def run_closed(c, ctx):
    n = c["n"]
    X = np.array(TAB[n], float)
    vec = {"theta": [-1.0, 0.5, 3.0][:n], "delta": [1.0, -7.0, 0.25][:n], "gamma": [0.5, 60.0, -2.0][:n]}
    co = {k: (np.array(vec[k]) if c[k] == "vec" else c[k]) for k in ("theta", "delta", "gamma")}
    val = {k: (np.zeros(n) if v is None else np.broadcast_to(np.asarray(v, float), (n,))) for k, v in co.items()}
    want = [[val["theta"][j] * c["tau"] + val["delta"][j] * x + 0.5 * val["gamma"][j] * x * x for j, x in enumerate(row)] for row in X]
    kw = {k: v for k, v in co.items() if v is not None}
    keep = X.copy()
    ctx.state()
    ctx.step()
    ctx.close(reprice_taylor(X, tau=c["tau"], **kw), want, 1e-13, "Taylor repricing")
    ctx.check(np.array_equal(X, keep), "input modified")
    I = (X * 8).astype(int)
    kw2 = dict(kw)
    ctx.close(reprice_taylor(I, tau=c["tau"], **kw2), [[val["theta"][j] * c["tau"] + val["delta"][j] * x + 0.5 * val["gamma"][j] * x * x for j, x in enumerate(row)] for row in I.tolist()], 1e-12, "Taylor repricing of integer changes")
    if n == 1:
        ctx.close(np.ravel(reprice_taylor(X[:, 0], tau=c["tau"], **kw)), np.array(want)[:, 0], 1e-13, "Taylor repricing of a vector")
    ctx.close(reprice_exp(X), [[math.expm1(x) for x in row] for row in X], 1e-13, "exponential repricing")
    D = pd.DataFrame(X, columns=["b", "a", "c"][:n])
    L = reprice_exp(D)
    ctx.close(L, np.expm1(X), 1e-13, "exponential repricing of a frame")
    ctx.check(not isinstance(L, pd.DataFrame) or list(L.columns) == list(D.columns), "labels")
    ctx.out("ok")


# ---------------------------------------------------------------- full repricing
PRICING = {
    "level": (lambda Y: 100.0 * np.exp(Y), lambda y: [100 * math.exp(v) for v in y]),
    "bond": (lambda Y: 100.0 * np.exp(-5.0 * Y), lambda y: [100 * math.exp(-5 * v) for v in y]),
    "square": (lambda Y: Y * Y + 1.0, lambda y: [v * v + 1 for v in y]),
    "linear": (lambda Y: Y @ np.arange(1.0, 2.0 * Y.shape[-1] + 1).reshape(Y.shape[-1], 2), None),
    "basket": (lambda Y: np.exp(Y).sum(axis=-1, keepdims=True), lambda y: [sum(math.exp(v) for v in y)]),
    "columns": (lambda Y: np.stack([Y[:, 0] * 2.0, Y[:, -1] - Y[:, 0]], axis=1), lambda y: [2 * y[0], y[-1] - y[0]]),
    "vector": (lambda Y: np.prod(Y, axis=1), lambda y: math.prod(y)),
}


def gen_full(tier):
    for n in (1, 2, 3):
        for k in PRICING:
            for y0 in itertools.product((-0.5, 0.0, 1.5), repeat=n):
                yield {"n": n, "fn": k, "y0": y0}


def run_full(c, ctx):
    n = c["n"]
    f, ref = PRICING[c["fn"]]
    if ref is None:
        ref = lambda y: [sum(v * (1 + 2 * i + j) for i, v in enumerate(y)) for j in range(2)]
    X = np.array(TAB[n], float)
    y0 = np.array(c["y0"])
    fn = make_repricing_fn(f, y0)
    want = np.array([np.array(ref([a + b for a, b in zip(y0, row)])) - np.array(ref(list(y0))) for row in X])
    got = fn(X)
    ctx.step(2)
    ctx.state()
    ctx.close(got, want, 1e-11, f"full repricing {c['fn']}")
    ctx.close(fn(np.zeros_like(X)), np.zeros_like(want), 0, "no change, no profit and loss")
    ctx.close(fn(X[2:3]), want[2:3], 1e-11, "one scenario")
    ctx.close(make_repricing_fn(f, list(c["y0"]))(X), want, 1e-11, "levels as a list")
    ctx.check(np.array_equal(y0, np.array(c["y0"])), "levels modified")
    y0 += 5.0
    ctx.close(fn(X), want, 1e-11, "repricing follows later changes of the caller's levels")
    if n == 1 and c["fn"] in ("level", "bond", "square"):
        ctx.close(np.ravel(make_repricing_fn(f, c["y0"][0])(X[:, 0])), want[:, 0], 1e-11, "scalar level and vector of changes")
        ctx.close(np.ravel(make_repricing_fn(f, np.array(c["y0"]))(X[:, 0])), want[:, 0], 1e-11, "vector of changes")
    ctx.out(c["fn"])


# ---------------------------------------------------------------- composition
def instr(kind, cols, j):
    """(specification, reference function of one driver row, matching invariants list)"""
    if kind == "exp":
        return reprice_exp, lambda r: math.expm1(r)
    if kind == "lin":
        k = 2.0 + j
        return (lambda dy: k * dy), lambda r: k * r
    if kind == "tay":
        return (lambda dy: reprice_taylor(dy, delta=-7.0 - j, gamma=50.0)), lambda r: (-7.0 - j) * r + 25.0 * r * r
    if kind == "col":                                  # returns an (n, 1) column
        return (lambda dy: np.reshape(dy, (-1, 1)) * 3.0), lambda r: 3 * r
    raise KeyError(kind)


MENU = []
for d in ("x", "y", "z"):
    for k in ("exp", "lin", "tay", "col"):
        MENU.append(("one", d, k))
for a, b in itertools.permutations(("x", "y", "z"), 2):
    MENU.append(("two", a, b))
MENU.append(("three", "z", "x"))
MENU.append(("again", "y", "x"))
QUICK = [0, 3, 5, 6, 10, 11, 12, 15, 17, 18, 19]


def gen_comp(tier):
    idx = QUICK if tier == "quick" else range(len(MENU))
    for cols in itertools.permutations(("x", "y", "z")):
        for r in (1, 2, 3) if tier == "quick" else (1, 2, 3):
            for sel in itertools.permutations(idx, r) if r < 3 or tier == "quick" else itertools.combinations(idx, r):
                if tier == "quick" and r == 3 and (sum(sel) + len(cols[0])) % 3:
                    continue
                yield {"cols": cols, "sel": sel}


def build(sel, j0=0):
    spec, refs = {}, []
    for j, i in enumerate(sel):
        kind, a, b = MENU[i]
        if kind == "one":
            f, r = instr(b, [a], j)
            own = a not in spec and j % 2 == 0
            name = a if own else f"I{j}"
            form = f if own else ((a, f) if j % 3 else ([a], f))
            refs.append((name, (lambda row, a=a, r=r: r(row[a]))))
        elif kind == "two":
            name = f"I{j}"
            form = ([a, b], lambda Y, j=j: Y[:, 0] * Y[:, 1] - (j + 1) * Y[:, 1])
            refs.append((name, (lambda row, a=a, b=b, j=j: row[a] * row[b] - (j + 1) * row[b])))
        elif kind == "again":                          # one driver in two columns
            name = f"I{j}"
            form = (["y", "x", "y"], lambda Y: Y[:, 0] - 2 * Y[:, 1] + 100 * Y[:, 2])
            refs.append((name, lambda row: row["y"] - 2 * row["x"] + 100 * row["y"]))
        else:
            name = f"I{j}"
            form = (("z", "x", "y"), lambda Y: Y[:, 0] + 10 * Y[:, 1] + 100 * Y[:, 2])
            refs.append((name, lambda row: row["z"] + 10 * row["x"] + 100 * row["y"]))
        spec[name] = form
    return spec, refs


def run_comp(c, ctx):
    cols = c["cols"]
    spec, refs = build(c["sel"])
    if len(spec) != len(refs):
        return
    X = np.array(TAB[3], float)
    rows = [dict(zip(cols, r)) for r in X]
    want = np.array([[f(r) for _, f in refs] for r in rows])
    keys = list(spec)
    fn, names = compose_repricers(spec, list(cols))
    ctx.step()
    ctx.state()
    ctx.check(list(names) == [n for n, _ in refs] == keys, "instrument names and order")
    ctx.close(fn(X), want, 1e-12, f"composition over {cols}")
    ctx.close(fn(X[:1]), want[:1], 1e-12, "one scenario")
    ctx.check(list(spec) == keys, "specification modified")
    for pc in (pd.Index(cols), tuple(cols)):
        ctx.close(compose_repricers(spec, pc)[0](X), want, 1e-12, f"columns given as {type(pc).__name__}")
    idx = ["t%d" % i for i in range(len(X))]
    D = pd.DataFrame(X / 16, columns=cols, index=idx)
    p = np.array([0.5, 0.125, 0.25, 0.125])
    if len(c["sel"]) > 2 and (sum(c["sel"]) % 5):
        return
    nS = 40
    base = project_scenarios(D, investment_horizon=2, p=p, n_simulations=nS, seed=4)
    wantP = np.array([[f(r) for _, f in refs] for r in base.to_dict("records")])
    got = project_scenarios(D, investment_horizon=2, p=p, n_simulations=nS, seed=4, reprice=fn)
    ctx.check(isinstance(got, pd.DataFrame) and list(got.columns) == list(names), "instrument labels of projected scenarios")
    ctx.close(got, wantP, 1e-12, "projected and repriced by instrument")
    ctx.close(project_scenarios(D.to_numpy(), investment_horizon=2, p=p, n_simulations=nS, seed=4, reprice=fn), wantP, 1e-12, "projected array repriced by instrument")
    for P in (p, pd.Series(p, index=idx)[::-1]):
        w = PortfolioWrapper.from_invariants(D, horizon=2, n_simulations=nS, p=P, reprice=spec, seed=4)
        ctx.check(list(w.dist.asset_names) == list(names), "instrument labels of the problem")
        ctx.close(w.dist.scenarios, wantP, 1e-12, "scenarios of the problem")
        ctx.close(w.dist.mu, wantP.mean(0), 1e-11, "mean of the problem")
        ctx.close(w.dist.cov, np.atleast_2d(np.cov(wantP.T, ddof=0)), 1e-10, "covariance of the problem")
        w = PortfolioWrapper.from_invariants(D, horizon=2, n_simulations=nS, p=P, reprice=fn, seed=4)
        ctx.check(list(w.dist.asset_names) == list(names), "instrument labels of the problem (composed callable)")
        ctx.close(w.dist.scenarios, wantP, 1e-12, "scenarios of the problem (composed callable)")
        ctx.step(2)
    Pp = simulate_paths(D, horizon=3, n_paths=10, p=p, seed=2)
    got = simulate_paths(D, horizon=3, n_paths=10, p=p, seed=2, reprice=fn)
    wp = np.array([[[f(dict(zip(cols, v))) for _, f in refs] for v in path] for path in Pp])
    ctx.close(got, wp, 1e-12, "paths repriced by instrument")
    ctx.step(4)
    ctx.out(f"{len(refs)} instruments")


# ---------------------------------------------------------------- problems from invariants
def gen_inv(tier):
    for n in (1, 2, 3):
        for kind in ("default", "exp", "taylor", "full", "none-linear"):
            for h in (1, 2, 5):
                for p in (None, 0, 1):
                    yield {"n": n, "kind": kind, "h": h, "p": p}


def run_inv(c, ctx):
    n, h = c["n"], c["h"]
    X = np.array(TAB[n], float) / 8
    T = len(X)
    lab = ["b", "a", "c"][:n]
    idx = ["t%d" % i for i in range(T)]
    p = None if c["p"] is None else np.array([[1.0] * T, [0.0] + [1.0] * (T - 2) + [2.0]][c["p"]])
    if p is not None:
        p = p / p.sum()
    y0 = np.array([0.5, -0.25, 1.0][:n])
    rp = {"default": None, "exp": reprice_exp, "taylor": lambda d: reprice_taylor(d, theta=-1.0, delta=np.array([1.0, -7.0, 2.0][:n]), gamma=3.0, tau=0.25),
          "full": make_repricing_fn(lambda Y: 3.0 * np.exp(-2 * Y), y0), "none-linear": lambda d: d * 1.0}[c["kind"]]
    g = {"default": np.expm1, "exp": np.expm1, "taylor": lambda d: -0.25 + np.array([1.0, -7.0, 2.0][:n]) * d + 1.5 * d * d, "full": lambda d: 3 * np.exp(-2 * (y0 + d)) - 3 * np.exp(-2 * y0), "none-linear": lambda d: d}[c["kind"]]
    N = 60
    base = np.asarray(project_scenarios(X, investment_horizon=h, p=p, n_simulations=N, seed=11))
    want = g(base)
    D = pd.DataFrame(X, columns=lab, index=idx)
    keep = D.copy(deep=True)
    for inv in (X, D):
        for P in [p] if p is None else ([p, pd.Series(p, index=idx)[::-1]] if inv is D else [p, list(p)]):
            kw = {} if rp is None else {"reprice": rp}
            w = PortfolioWrapper.from_invariants(inv, horizon=h, n_simulations=N, p=P, seed=11, **kw)
            ctx.step()
            ctx.state()
            ctx.close(w.dist.scenarios, want, 1e-12, f"scenarios ({c['kind']})")
            ctx.close(w.dist.mu, want.mean(0), 1e-11, "mean")
            ctx.close(w.dist.cov, np.atleast_2d(np.cov(want.T, ddof=0)), 1e-10, "covariance")
            ctx.close(w.dist.probabilities, np.full(N, 1 / N), 1e-12, "simulated scenarios are equally likely")
            if inv is D:
                ctx.check(list(w.dist.asset_names) == lab, "labels")
    ctx.check(D.equals(keep), "invariants modified")
    if n > 1:
        w = PortfolioWrapper.from_invariants(D, horizon=h, n_simulations=N, p=p, seed=11, bounds={lab[1] if False else 1: (0.25, None)})
        for perm in itertools.permutations(lab):
            q = PortfolioWrapper.from_invariants(D[list(perm)], horizon=h, n_simulations=N, p=p, seed=11, **({} if rp is None or c["kind"] in ("taylor", "full") else {"reprice": rp}))
            if c["kind"] in ("default", "exp"):
                ctx.close(np.asarray(q.dist.scenarios)[:, [list(perm).index(a) for a in lab]], want, 1e-12, f"driver order {perm}")
                ctx.check(list(q.dist.asset_names) == list(perm), "labels of permuted drivers")
            ctx.step()
            ctx.state()
    ctx.out(c["kind"])


def gen_bad(tier):
    yield {"bad": 1}


def run_bad(c, ctx):
    D = pd.DataFrame(TAB[2], columns=["x", "y"])
    ok = reprice_exp
    for k, (spec, exc) in {"unknown own driver": ({"q": ok}, KeyError), "unknown named driver": ({"I": ("q", ok)}, KeyError), "unknown driver in list": ({"I": (["x", "q"], ok)}, KeyError),
                           "not callable": ({"x": 3.0}, TypeError), "second not callable": ({"I": ("x", 2)}, TypeError), "triple": ({"I": ("x", "y", ok)}, TypeError), "list spec": ({"I": ["x", ok]}, TypeError)}.items():
        ctx.state()
        ctx.raises(lambda: compose_repricers(spec, ["x", "y"]), exc, k)
        ctx.raises(lambda: PortfolioWrapper.from_invariants(D, reprice=spec, n_simulations=5), exc, k + " through from_invariants")
    ctx.raises(lambda: PortfolioWrapper.from_invariants(D.to_numpy(), reprice={"x": ok}, n_simulations=5), TypeError, "names without labels")
    for p in ([0.2, 0.8], [-0.2, 0.4, 0.4, 0.2, 0.2], [0.0] * 5):
        ctx.raises(lambda: PortfolioWrapper.from_invariants(D, p=p, n_simulations=5), ValueError, f"p={p}")
        ctx.raises(lambda: PortfolioWrapper.from_invariants(D, p=p, n_simulations=5, reprice={"x": ok}), ValueError, f"p={p} per instrument")
    E = D.set_axis(list("abcde"), axis=0)
    for r in (None, {"x": ok}):
        ctx.raises(lambda: PortfolioWrapper.from_invariants(E, p=pd.Series([0.2] * 5, index=list("abcdz")), n_simulations=5, reprice=r), ValueError, "foreign probability labels")
    ctx.raises(lambda: compose_repricers({"x": lambda d: np.concatenate([d, d])}, ["x"])[0](np.zeros((3, 1))), ValueError, "an instrument with the wrong number of scenarios")


FAMILIES = [
    Family("closed forms", gen_closed, run_closed, "n in {1,2,3}; 5^3 coefficient patterns x 3 time steps; float and integer changes"),
    Family("full repricing", gen_full, run_full, "7 pricing functions x all levels over 3 values, n in {1,2,3}"),
    Family("composition", gen_comp, run_comp, "all driver orders x ordered instrument sets of up to 3 from 10 (19) specifications; projection, paths and problems"),
    Family("problems from invariants", gen_inv, run_inv, "5 repricings x 3 horizons x 3 probability choices x labels and orders"),
    Family("rejection", gen_bad, run_bad, "malformed specifications and probabilities"),
]
