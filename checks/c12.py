"""C12: scenario probabilities are valid and follow their stated law."""
import itertools
from fractions import Fraction as F
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc import ref
import pyvallocation.probabilities as P

LEVEL = "model_checking"
RULE = "case = one input vector / parameter point of a completely enumerated finite alphabet"
ASSUMPTIONS = ["totals within relative 1e-5 of one count as already normalised", "small sample sizes and value alphabets"]
NAN, INF = float("nan"), float("inf")


def gen_norm(tier):
    vals = ["-1", "0", "0.25", "1", "3", "nan", "inf"] + (["1e-300", "1e300", "-0.0"] if tier == "thorough" else [])
    for L in (0, 1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for v in itertools.product(vals, repeat=L):
            yield list(v)
    for v in itertools.product(["0", "0.25", "1", "-1e-9", "1e-12", "-0.0", "1e-300", "1e300", "0.333333", "1e-6", "2"], repeat=3):
        yield list(v)


def run_norm(case, ctx):
    v = [float(x) for x in case]
    n = len(v)
    for strict in (False, True):
        ok = n > 0 and all(math.isfinite(x) for x in v) and all((x > 0 if strict else x >= 0) for x in v) and 0 < sum(v) < INF
        for form in ("list", "tuple", "arr", "col", "ser"):
            x = {"list": list(v), "tuple": tuple(v), "arr": np.array(v, float), "col": np.array(v, float).reshape(-1, 1),
                 "ser": pd.Series(v, dtype=float)}[form]
            for route in ("norm", "resolve"):
                ctx.state()
                ctx.step()
                call = (lambda: P.normalize_probability_vector(x, strictly_positive=strict)) if route == "norm" else \
                    (lambda: P.resolve_probabilities(x, n, strictly_positive=strict))
                what = f"{route} {case} strict={strict} {form}"
                if not ok:
                    ctx.raises(call, ValueError, what)
                    continue
                r = call()
                tot = math.fsum(v)
                scale = tot if abs(tot - 1) > 1.1e-5 else None
                want = [a / tot for a in v]
                ctx.check(r.shape == (n,) and np.all(r >= 0), f"{what}: bad vector {r}")
                ctx.close(r.sum(), 1.0, 1.1e-5 if scale is None else 1e-12, f"{what}: sum")
                ctx.close(r, want, 1.1e-5 if scale is None else 1e-12, f"{what}: ratios")
                same = np.asarray(x, float).reshape(-1)
                ctx.check(np.array_equal(same, np.array(v)), f"{what}: input changed")
                if route == "resolve":
                    for m in (n - 1, n + 1, 2 * n + 1):
                        ctx.raises(lambda: P.resolve_probabilities(x, m, strictly_positive=strict), ValueError, f"{what} for {m} observations")
    ctx.out("valid" if all(math.isfinite(x) and x >= 0 for x in v) else "invalid")


def gen_law(tier):
    N = 40 if tier == "quick" else 200
    for n in range(-1, N + 1):
        yield ["uniform", n]
    for n in list(range(0, 25)) + [60, 100, 250, 1000]:
        for h in (0.25, 0.5, 1, 2, 3, 4.5, 5, 10, 20, 60, 125.5, 250, 1e4, 1e9):
            yield ["decay", n, h]
    for h in (0, -1, -0.5):
        yield ["decay", 5, h]


def run_law(case, ctx):
    ctx.state()
    ctx.step()
    if case[0] == "uniform":
        n = case[1]
        for call in (lambda: P.generate_uniform_probabilities(n), lambda: P.resolve_probabilities(None, n)):
            if n <= 0:
                ctx.raises(call, ValueError, f"uniform {n}")
            else:
                ctx.close(call(), np.full(n, 1.0 / n), 1e-14, f"uniform {n}")
        if n > 0:
            ctx.close(P.compute_effective_number_scenarios(P.generate_uniform_probabilities(n)), float(n), 1e-12, f"ENS uniform {n}")
            ctx.close(P.compute_effective_number_scenarios_hhi(P.generate_uniform_probabilities(n)), float(n), 1e-12, f"HHI uniform {n}")
        ctx.out("uniform")
        return
    _, n, h = case
    if h <= 0 or n <= 0:
        ctx.raises(lambda: P.generate_exp_decay_probabilities(n, h), ValueError, f"decay {case}")
        ctx.out("invalid")
        return
    p = P.generate_exp_decay_probabilities(n, h)
    # newest observation last, weight 2^(-age/half_life)
    w = [2.0 ** (-(n - 1 - t) / h) for t in range(n)]
    tot = math.fsum(w)
    ctx.check(p.shape == (n,) and np.all(p >= 0) and np.all(np.isfinite(p)), f"decay {case}: {p}")
    ctx.close(p, [x / tot for x in w], 1e-12, f"decay {case}")
    ctx.close(p.sum(), 1.0, 1e-12, f"decay sum {case}")
    if float(h).is_integer() and n > h:
        k = int(h)
        ctx.check(np.allclose(p[:-k] * 2, p[k:], rtol=1e-9, atol=0) or p[0] < 1e-290, f"decay {case}: weight one half-life back is not one half")
    ctx.check(np.all(np.diff(p) >= 0), f"decay {case}: not increasing in time")
    ens = P.compute_effective_number_scenarios(p)
    ctx.close(ens, math.exp(-math.fsum(q * math.log(q) for q in (x / tot for x in w) if q > 0)), 1e-9, f"ENS {case}")
    ctx.check(1 - 1e-9 <= ens <= n + 1e-9, f"ENS {ens} outside [1,{n}]")
    ctx.out("decay")


def gen_kern(tier):
    vals = [-1.0, 0.0, 0.5, 2.0]
    for L in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for x in itertools.product(vals, repeat=L):
            yield list(x)


def run_kern(case, ctx):
    n = len(case)
    for x in (np.array(case), list(case), pd.Series(case)):
        for h in (None, 0.0, -1.0, 0.1, 0.5, 1.0, 3.0, 1e6):
            for xt in (None, -1.0, 0.25, 2.0, 100.0):
                for v in (None, [0.0, 1.0, -1.0], [0.5]):
                    if isinstance(x, (list, pd.Series)) and (v is not None or h in (0.0, -1.0, 3.0)):
                        continue
                    ctx.state()
                    ctx.step()
                    xx = np.asarray(x, float)
                    hh = h
                    if h is None:
                        m = xx.mean()
                        hh = 1.06 * math.sqrt(((xx - m) ** 2).sum() / (n - 1)) * n ** (-0.2) if n > 1 else NAN
                        if n > 1:
                            ctx.close(P.silverman_bandwidth(x), hh, 1e-12, f"silverman {case}")
                    t = xx[-1] if xt is None else xt
                    vv = xx if v is None else np.array(v)
                    what = f"kernel x={case} h={h} x_T={xt} v={v}"
                    call = lambda: P.generate_gaussian_kernel_probabilities(x.iloc[:] if isinstance(x, pd.Series) and xt is not None else xx if isinstance(x, pd.Series) else x, None if v is None else np.array(v), h, xt)
                    e = -((vv - t) ** 2) / (2 * hh ** 2) if hh and hh > 0 else None
                    if e is None or e.max() < -760:
                        ctx.raises(call, ValueError, what)
                        continue
                    if e.max() < -690:
                        continue  # on the edge of floating-point underflow
                    p = np.asarray(call(), float)
                    w = np.exp(e)
                    ctx.close(p, w / w.sum(), 1e-9, what)
                    ctx.close(p.sum(), 1.0, 1e-12, what + " sum")
                    d = np.abs(vv - t)
                    for i in range(len(d)):
                        for j in range(len(d)):
                            if d[i] < d[j]:
                                ctx.check(p[i] >= p[j], f"{what}: farther scenario weighs more")
    ctx.out(f"n={n}")


def gen_ens(tier):
    for T, k in ((1, 1), (2, 12), (3, 12), (4, 8), (5, 6), (6, 5)) + (((4, 16), (7, 6), (8, 5)) if tier == "thorough" else ()):
        for c in ref.simplex_lattice(T, k):
            yield [T, k, [int(round(x * k)) for x in c]]
    # scenarios of very small probability still count
    for k in (10**3, 10**5, 10**7, 10**9, 10**12):
        for T in (2, 3, 5):
            yield [T, k, [1] * (T - 1) + [k - T + 1]]
            yield [T, k, [k - T + 1] + [0] * (T - 2) + [T - 1]]


def run_ens(case, ctx):
    T, k, c = case
    p = np.array(c, float) / k
    for x in (p, list(p), p.reshape(-1, 1), pd.Series(p)):
        ctx.state()
        ctx.step(2)
        e = P.compute_effective_number_scenarios(x)
        h = P.compute_effective_number_scenarios_hhi(x)
        want = math.exp(-math.fsum(q * math.log(q) for q in p if q > 0))
        ctx.close(e, want, 1e-12, f"ENS {case}")
        ctx.close(h, float(1 / sum(F(q, k) ** 2 for q in c)), 1e-12, f"HHI {case}")
        ctx.check(1 - 1e-9 <= e <= T + 1e-9 and 1 - 1e-9 <= h <= e + 1e-9, f"ENS {e}, HHI {h} out of range for {case}")
        if max(c) == k:
            ctx.close(e, 1.0, 1e-12, f"degenerate {case}")
    ctx.out(f"T={T}")


FAMILIES = [
    Family("normalise", gen_norm, run_norm, "all vectors up to length 3 (4) over 7-11 values incl. negative, NaN, inf, tiny, huge x strictness x container x entry point"),
    Family("laws", gen_law, run_law, "uniform and half-life laws for every sample size in range and 14 half-lives"),
    Family("kernel", gen_kern, run_kern, "all reference samples up to length 4 (5) over 4 values x bandwidths x targets x scored values"),
    Family("ens", gen_ens, run_ens, "all probability vectors of small denominators, zeros included"),
]
