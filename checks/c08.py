"""C08: portfolio risk measures equal their exact definitions."""
import itertools
from fractions import Fraction as F
import numpy as np
import pandas as pd
from mc.core import Family
from mc import data, ref
from pyvallocation.utils.functions import portfolio_cvar, portfolio_var, portfolio_variance, portfolio_volatility

LEVEL = "model_checking"
RULE = "case = one (P&L vector, ...) point; every probability vector of the stated denominator and every confidence level is explored inside"
ASSUMPTIONS = ["decimal confidence levels denote their decimal value (0.95 means a tail of exactly 1/20)", "tolerance 1e-9 for rounding"]
CONF = ["0.95", "0.9", "0.8", "0.75", "0.7", "0.6", "0.5", "0.4", "0.3", "0.25", "0.1", "0.05", "0.99", "0.01"]


def exact(pnl, p, conf):
    """(VaR, CVaR) of a discrete distribution in exact arithmetic."""
    tail = 1 - F(conf)
    items = sorted((x, q) for x, q in zip(pnl, p) if q > 0)
    cum, var, acc = F(0), None, F(0)
    for x, q in items:
        take = min(q, tail - cum) if cum < tail else F(0)
        acc += x * take
        if var is None and cum + q >= tail:
            var = x
        cum += q
    return -var, -acc / tail


def flt(v):
    return np.array([float(x) for x in v])


VALS = {2: [-2, 0, 1], 3: [-2, -1, 0, 3], 4: [-2, 0, 1]}


def gen1(tier):
    for T in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        vals = VALS.get(T, [-2, 0, 1])
        for pnl in itertools.product(vals, repeat=T):
            yield list(pnl)


def run1(case, ctx):
    T = len(case)
    pnl = [F(x, 8) for x in case]
    R = flt(pnl).reshape(-1, 1)
    for k in ((4, 5, 20) if T <= 3 else (4, 5)):
        if T == 3 and k == 20:
            k = 10
        for comp in ref.simplex_lattice(T, k):
            pf = [F(int(round(c * k)), k) for c in comp]
            p = flt(pf)
            for c in CONF:
                v, cv = exact(pnl, pf, c)
                ctx.state()
                ctx.step(2)
                gv = portfolio_var(np.array([1.0]), R, p, float(c))
                gc = portfolio_cvar(np.array([1.0]), R, p, float(c))
                ctx.check(isinstance(gv, float) and isinstance(gc, float), f"{case} p={comp}: scalar expected, got {type(gv)}, {type(gc)}")
                ctx.close(gv, float(v), 1e-9, f"VaR pnl={case}/8 p={pf} conf={c}")
                ctx.close(gc, float(cv), 1e-9, f"CVaR pnl={case}/8 p={pf} conf={c}")
                ctx.check(gc >= gv - 1e-9, f"CVaR {gc} below VaR {gv}")
    ctx.out(f"T={T}")


def series(T, seed):
    """Deterministic integer-valued pseudo returns (linear congruential walk), as Fractions of 1/64."""
    x, out = seed, []
    for _ in range(T):
        x = (1103515245 * x + 12345) % 2 ** 31
        out.append((x >> 16) % 101 - 48)
    return out


def gen2(tier):
    for T in (1, 2, 3, 5, 7, 10, 12, 20, 25, 30, 40, 50, 60, 75, 100, 120, 200, 250, 252, 260, 500, 1000):
        for seed in (1, 2) + ((3, 4, 5, 6, 7, 8) if tier == "thorough" else ()):
            for ties in (0, 1):
                yield [T, seed, ties]


def run2(case, ctx):
    """Uniform (default) probabilities, every attainable-atom confidence and decimals around them; default confidence."""
    T, seed, ties = case
    s = series(T, seed)
    if ties:
        s = [x // 12 for x in s]
    pnl = [F(x, 64) for x in s]
    R = flt(pnl).reshape(-1, 1)
    pf = [F(1, T)] * T
    w = np.array([1.0])
    confs = set(CONF) | {"0.975", "0.995", "0.85"}
    for k in range(1, T):
        c = F(T - k, T)
        if T <= 60 or k % 7 == 0 or k < 30:
            confs.add(str(c))
    for c in sorted(confs):
        v, cv = exact(pnl, pf, F(c))
        cf = float(F(c))
        for p in (None, flt(pf)):
            ctx.state()
            ctx.step(2)
            ctx.close(portfolio_var(w, R, p, cf), float(v), 1e-9, f"VaR {case} conf={c} p={'given' if p is not None else None}")
            ctx.close(portfolio_cvar(w, R, p, cf), float(cv), 1e-9, f"CVaR {case} conf={c} p={'given' if p is not None else None}")
    v, cv = exact(pnl, pf, F("0.95"))
    ctx.close(portfolio_var(w, R), float(v), 1e-9, f"default VaR {case}")
    ctx.close(portfolio_cvar(w, R), float(cv), 1e-9, f"default CVaR {case}")
    # decaying integer weights
    wts = [F(1 + (i * 7) % 11) for i in range(T)]
    tot = sum(wts)
    pf = [x / tot for x in wts]
    for c in CONF:
        v, cv = exact(pnl, pf, F(c))
        ctx.state()
        ctx.step(2)
        ctx.close(portfolio_var(w, R, flt(pf), float(c)), float(v), 1e-9, f"VaR {case} weighted conf={c}")
        ctx.close(portfolio_cvar(w, R, flt(pf), float(c)), float(cv), 1e-9, f"CVaR {case} weighted conf={c}")
    ctx.out("atoms")


def gen3(tier):
    for n in (2, 3, 4):
        for sc in data.SCEN[n]:
            for k in ((2, 4) if tier == "quick" else (2, 3, 4, 5)):
                for pi in range(4):
                    yield [n, sc, k, pi]


def run3(case, ctx):
    """Multi-asset: every lattice portfolio (long, short), all input forms, many-portfolio matrices, demeaning, axioms."""
    n, sc, k, pi = case
    Ri = data.SCEN[n][sc]
    T = len(Ri)
    pf = [[F(1, T)] * T, [F(2 * (i + 1), T * (T + 1)) for i in range(T)], [F(0) if i == 1 else F(1, T - 1) for i in range(T)],
          [F(1) if i == T - 1 else F(0) for i in range(T)]][pi]
    p = flt(pf)
    R = np.array(Ri, float) / 8
    names = ["a", "b", "c", "d"][:n]
    Rdf = pd.DataFrame(R, columns=names)
    lat = ref.simplex_lattice(n, k)
    W = [np.array(x) for x in lat] + [np.array([1.5, -0.5, 0, 0][:n]), np.array([-1.0, -0.25, 0.5, 0][:n]), np.zeros(n)]
    m = [sum(pf[t] * F(Ri[t][j], 8) for t in range(T)) for j in range(n)]
    cov = [[sum(pf[t] * (F(Ri[t][i], 8) - m[i]) * (F(Ri[t][j], 8) - m[j]) for t in range(T)) for j in range(n)] for i in range(n)]
    S = np.array([[float(x) for x in r] for r in cov])
    Sdf = pd.DataFrame(S, index=names, columns=names)
    M = np.column_stack(W)
    Mdf = pd.DataFrame(M, index=names, columns=[f"P{i}" for i in range(M.shape[1])])
    allv = {}
    for conf in ("0.95", "0.75", "0.5", "0.3"):
        for dm in (None, False, True):
            vs, cs = [], []
            for w in W:
                wf = [F(float(x)).limit_denominator(1000) for x in w]
                pnl = [sum(F(Ri[t][j], 8) * wf[j] for j in range(n)) for t in range(T)]
                if dm:
                    mean = sum(a * b for a, b in zip(pnl, pf))
                    pnl = [x - mean for x in pnl]
                v, cv = exact(pnl, pf, F(conf))
                vs.append(float(v))
                cs.append(float(cv))
                for wform in (w, pd.Series(w, index=names), list(w)):
                    for rform in (R, Rdf):
                        ctx.state()
                        ctx.step(2)
                        if isinstance(wform, list) and rform is R and dm:
                            wform = np.array(wform).reshape(-1, 1)
                        what = f"{case} w={w} conf={conf} demean={dm} {type(wform).__name__}/{type(rform).__name__}"
                        ctx.close(np.ravel(portfolio_var(wform, rform, p, float(conf), dm)), [vs[-1]], 1e-9, "VaR " + what)
                        ctx.close(np.ravel(portfolio_cvar(wform, rform, p, float(conf), dm)), [cs[-1]], 1e-9, "CVaR " + what)
            for mform in (M, Mdf):
                for rform in (R, Rdf):
                    for pform in (p, p.reshape(-1, 1), list(p), pd.Series(p)):
                        ctx.step(2)
                        ctx.close(np.ravel(portfolio_var(mform, rform, pform, float(conf), dm)), vs, 1e-9, f"matrix VaR {case} conf={conf} dm={dm}")
                        ctx.close(np.ravel(portfolio_cvar(mform, rform, pform, float(conf), dm)), cs, 1e-9, f"matrix CVaR {case} conf={conf} dm={dm}")
            allv[(conf, dm)] = (vs, cs)
        # axioms on the real values: homogeneity, translation, order, splitting, subadditivity
        c = float(conf)
        cs = allv[(conf, False)][1]
        perm = list(reversed(range(T)))
        q = np.concatenate([p * 0.25, p * 0.75])
        for i, w in enumerate(W):
            ctx.step(5)
            for fn, base in ((portfolio_var, allv[(conf, False)][0][i]), (portfolio_cvar, cs[i])):
                ctx.close(fn(2.5 * w, R, p, c), 2.5 * base, 1e-9, f"homogeneity {fn.__name__} {case} {w} {conf}")
                ctx.close(fn(w, R[perm], p[perm], c), base, 1e-9, f"reorder {fn.__name__} {case} {w} {conf}")
                ctx.close(fn(w, np.vstack([R, R]), q, c), base, 1e-9, f"split {fn.__name__} {case} {w} {conf}")
                ctx.close(fn(w, R + 0.125, p, c), base - 0.125 * w.sum(), 1e-9, f"translation {fn.__name__} {case} {w} {conf}")
            for j in range(i):
                ctx.check(portfolio_cvar(w + W[j], R, p, c) <= cs[i] + cs[j] + 1e-9, f"subadditivity {case} {w} {W[j]} {conf}")
    var = [float(sum(F(float(w[i])).limit_denominator(1000) * cov[i][j] * F(float(w[j])).limit_denominator(1000) for i in range(n) for j in range(n))) for w in W]
    for sform in (S, Sdf):
        for mform in (M, Mdf):
            ctx.step(2)
            ctx.close(np.ravel(portfolio_variance(mform, sform)), var, 1e-9, f"variance matrix {case}")
            ctx.close(np.ravel(portfolio_volatility(mform, sform)), np.sqrt(var), 1e-7, f"volatility matrix {case}")
        for i, w in enumerate(W):
            for wform in (w, pd.Series(w, index=names), list(w)):
                ctx.step(2)
                ctx.close(portfolio_variance(wform, sform), var[i], 1e-9, f"variance {case} {w}")
                ctx.close(portfolio_volatility(wform, sform), np.sqrt(var[i]), 1e-7, f"volatility {case} {w}")
    ctx.out(sc)


def gen4(tier):
    for fn in ("var", "cvar"):
        for bad in ("0", "1", "-0.5", "1.5", "nan", "inf", "-inf"):
            yield [fn, "conf", bad]
        for bad in ("yes", 1, 0, 1.0):
            yield [fn, "demean", bad]


def run4(case, ctx):
    fn, what, bad = case
    f = portfolio_var if fn == "var" else portfolio_cvar
    R = np.array(data.SCEN[2]["A"], float)
    w = np.array([0.5, 0.5])
    ctx.state()
    if what == "conf":
        ctx.raises(lambda: f(w, R, None, float(bad)), Exception, f"confidence {bad}")
    else:
        ctx.raises(lambda: f(w, R, None, 0.9, bad), Exception, f"demean {bad!r}")
    ctx.out(what)


FAMILIES = [
    Family("atoms", gen1, run1, "all P&L vectors T<=4 (5) over 3-4 values x all probability vectors with denominators 4,5,10/20 (zeros included) x 14 confidences, against exact rational arithmetic"),
    Family("uniform", gen2, run2, "22 sample sizes up to 1000 x every confidence at an atom boundary, default and explicit probabilities"),
    Family("portfolios", gen3, run3, "all lattice and short portfolios x scenario sets x probability laws x input forms, demeaning, matrices, axioms"),
    Family("invalid", gen4, run4, "out-of-range confidence and non-boolean demean"),
]
