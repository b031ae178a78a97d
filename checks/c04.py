"""C04: CVaR portfolios are truly optimal and their risk is reported exactly."""
import numpy as np
from mc.core import Family
from mc import data, ref, entries as E
from pyvallocation import optimization as opt
from pyvallocation.bayesian import RobustBayesPosterior
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints

LEVEL = "model_checking"
RULE = "case = (universe size, constraint set, scenario matrix, scenario probabilities, tail level, costs); every target level explored inside"
ASSUMPTIONS = ["n <= 4 assets, at most 6 scenarios (plus 20 and 50 replicated ones)", "reference optimum from an independent HiGHS formulation"]
LEV = [None, -0.5, 0.3, 0.8]


def probs(T, tier):
    out = [np.full(T, 1.0 / T)]
    k = {3: 5, 4: 3, 5: 2, 6: 2}[T] if tier == "quick" else {3: 10, 4: 6, 5: 4, 6: 3}[T]
    out += list(data.prob_grid(T, k))
    w = np.arange(1, T + 1) ** 2 / 7.0
    out.append(w / w.sum())
    out.append(out[-1][::-1])
    return out


def cost(n, kind, R):
    if kind == "none":
        return None, None
    w0 = E.w0_of(n)
    k = {"small": 0.02, "mid": 0.5, "huge": 20.0}[kind] * float(np.abs(R).max())
    return w0, k * np.array([1.0, 0.25, 0.0 if kind == "small" else 0.5, 2.0])[:n]


def objective(w, R, p, a, w0, c):
    return ref.cvar(R @ w, p, a) + (0.0 if c is None else float(c @ np.abs(w - w0)))


def optimum(R, p, a, n, rl, t, w0, c):
    return ref.cvar_lp(R, p, a, n, rl, target=t, w0=w0, cost=c)[0]


def bounded(c):
    return c != "free_short"


def gen_lp(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            if not bounded(c):
                continue
            for sc in data.SCEN[n]:
                for a in ([0.05, 0.3, 0.75] if tier == "quick" else [0.01, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.95]):
                    for k in ("none", "mid") if tier == "quick" or n == 4 else ("none", "small", "mid", "huge"):
                        yield [n, c, sc, a, k, tier]


def run_lp(case, ctx):
    n, c, sc, a, kind, tier = case
    spec = data.CONS[n][c]
    R = np.array(data.SCEN[n][sc], float) * 0.01
    rl = ref.rules(n, spec)
    w0, pc = cost(n, kind, R)
    mt = E.mats(n, spec)
    ps = probs(len(R), tier)
    if tier == "quick" and n == 3:
        ps = ps[::3] + ps[-2:]
    for p in ps:
        m = p @ R
        hi = ref.lp_max(m, n, rl)[1]
        lo = -ref.lp_max(-m, n, rl)[1]
        o = opt.MeanCVaR(R, p, a, *mt, initial_weights=w0, proportional_costs=pc)
        for lv in LEV:
            t = None if lv is None else lo + lv * (hi - lo)
            what = f"{case} p={np.round(p, 4).tolist()} level={lv}"
            ctx.state(); ctx.step()
            w = np.asarray(o.efficient_portfolio(t), float)
            best = optimum(R, p, a, n, rl, t, w0, pc)
            v = ref.violation(w, rl + ([(m, t, None)] if t is not None else []))
            ctx.check(v <= 2e-6, lambda: f"{what}: {w.tolist()} infeasible by {v:.2e}")
            f = objective(w, R, p, a, w0, pc)
            ctx.check(f <= best + 1e-7 * (1 + abs(best)), lambda: f"{what}: objective {f:.9g} of {w.tolist()} above optimum {best:.9g}")
    ctx.out("ok")


def gen_front(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            if not bounded(c):
                continue
            for sc in data.SCEN[n]:
                for pk in ("none", "uni", "lin", "zero", "x20"):
                    for a in ([0.05, 0.4] if tier == "quick" else [0.01, 0.05, 0.1, 0.2, 0.4, 0.7]):
                        for k in ("none", "mid"):
                            for conv in (True, False):
                                for num in ((4,) if tier == "quick" else (1, 2, 3, 4, 6, 11)):
                                    yield [n, c, sc, pk, a, k, conv, num]


def pvec(pk, T):
    if pk == "uni":
        return np.full(T, 1.0 / T)
    if pk == "lin":
        w = np.arange(1.0, T + 1)
        return w / w.sum()
    if pk == "zero":
        w = np.arange(0.0, T)
        return w / w.sum()
    return None


def run_front(case, ctx):
    n, c, sc, pk, a, kind, conv, num = case
    spec = data.CONS[n][c]
    R = np.array(data.SCEN[n][sc], float) * 0.01
    if pk == "x20":      # twenty equally likely rows: tail masses fall exactly on scenario boundaries
        R = np.vstack([R + 0.001 * j * np.array([1, -1, 2, -2])[:n] for j in range(20)])[:20]
    p = pvec(pk, len(R))
    q = np.full(len(R), 1.0 / len(R)) if p is None else p
    rl = ref.rules(n, spec)
    w0, pc = cost(n, kind, R)
    tc = None if w0 is None else TransactionCosts(initial_weights=w0, proportional_costs=pc)
    W = E.wrapper_scen(n, R, p, True, constraints=Constraints(**spec), costs=tc)
    m = q @ R
    hi = ref.lp_max(m, n, rl)[1]
    what = str(case)
    ctx.state(); ctx.step()
    f = W.cvar_frontier(num, alpha=a, enforce_convexity=conv)
    w, ret, risk = np.asarray(f.weights), np.asarray(f.returns), np.asarray(f.risks)
    M = w.shape[1]
    cv = np.array([ref.cvar(R @ w[:, j], q, a) for j in range(M)])
    ctx.close(ret, m @ w, 1e-12, f"{what}: reported returns")
    raw = f.alternate_risks.get(f"CVaR (raw, alpha={a:.2f})")
    ctx.check(raw is not None, f"{what}: raw CVaR missing")
    ctx.close(raw, cv, 1e-10, f"{what}: raw risks equal the signed CVaR")
    if not conv:
        ctx.close(risk, cv, 1e-10, f"{what}: reported risks equal the signed CVaR")
    elif kind == "none":
        ctx.close(risk, cv, 1e-7, f"{what}: reported risks equal the signed CVaR (an exact frontier is already convex)")
    else:
        ctx.check(np.all(np.diff(risk) >= -1e-12), lambda: f"{what}: corrected risks decrease {risk}")
    vol = f.alternate_risks.get("Volatility")
    D = R - m
    ctx.close(vol, np.sqrt(np.clip(np.einsum("tj,t->j", (D @ w) ** 2, q), 0, None)), 1e-8, f"{what}: volatility overlay")
    ctx.check(f"{a:.2f}" in f.risk_measure and "CVaR" in f.risk_measure, f"{what}: measure label {f.risk_measure}")
    ctx.check(np.all(np.diff(ret) >= -1e-12), f"{what}: returns not sorted")
    obj = np.array([objective(w[:, j], R, q, a, w0, pc) for j in range(M)])
    best = optimum(R, q, a, n, rl, None, w0, pc)
    ctx.check(obj[0] <= best + 1e-7, lambda: f"{what}: first portfolio {obj[0]} is not the global minimum {best}")
    sc_ = float(np.abs(m).max())
    near = abs(ret[0] - hi) <= 1e-6 + 1e-4 * abs(hi)
    ctx.check(M == (num if num >= 2 else 1) or (M == 1 and near), f"{what}: {M} portfolios for {num}")
    if M > 1:
        ctx.close(ret[-1], hi, 1e-6 * sc_ + 1e-9, f"{what}: last return is the attainable maximum")
        grid = np.linspace(ret[0], hi, M)
        for j in range(M):
            v = ref.violation(w[:, j], rl)
            ctx.check(v <= 2e-6, lambda: f"{what}: portfolio {j} infeasible by {v:.2e}")
            ctx.check(ret[j] >= grid[j] - 1e-7, lambda: f"{what}: return {ret[j]} below grid target {grid[j]}")
            b = optimum(R, q, a, n, rl, min(grid[j], hi) - 1e-12, w0, pc)
            ctx.check(obj[j] <= b + 1e-6 * (1 + abs(b)), lambda: f"{what}: portfolio {j} objective {obj[j]} above optimum {b}")
    ctx.check(list(f.asset_names) == E.NAMES[:n], f"{what}: names")
    if conv and num == 4:
        for fr in (-0.2, 0.4, 0.9):
            t = ret[0] + fr * (hi - ret[0])
            ctx.state(); ctx.step()
            s, r1, k1 = W.min_cvar_at_return(t, alpha=a)
            x = np.asarray(s, float)
            ctx.close(r1, float(m @ x), 1e-12, f"{what}: single return {fr}")
            ctx.close(k1, ref.cvar(R @ x, q, a), 1e-10, f"{what}: single risk equals signed CVaR {fr}")
            v = ref.violation(x, rl + [(m, t, None)])
            ctx.check(v <= 2e-6, lambda: f"{what}: single {fr} infeasible by {v:.2e}")
            b = optimum(R, q, a, n, rl, t, w0, pc)
            o1 = objective(x, R, q, a, w0, pc)
            ctx.check(o1 <= b + 1e-7 * (1 + abs(b)), lambda: f"{what}: single {fr} objective {o1} above optimum {b}")
    if conv and num == 4 and kind == "none":
        # CVaR carried on mean-variance frontiers built from the same scenarios
        f2 = W.variance_frontier(3)
        key = [k for k in f2.alternate_risks if k.startswith("CVaR")]
        ctx.check(len(key) == 1 and "95" in key[0], f"{what}: overlay keys {key}")
        w2 = np.asarray(f2.weights)
        ctx.close(f2.alternate_risks[key[0]], [ref.cvar(R @ w2[:, j], q, 0.05) for j in range(w2.shape[1])], 1e-10, f"{what}: CVaR overlay on the variance frontier")
    ctx.out(f"M={M} neg={bool(cv.min() < 0)}")


def gen_mean(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for c in data.CONS[n]:
            if not bounded(c):
                continue
            for sc in list(data.SCEN[n])[:3 if tier == "quick" else None]:
                for pk in ("uni", "lin"):
                    for a in (0.05, 0.3):
                        for k in ("none", "mid"):
                            for sh in ("rev", "up", "zero"):
                                yield [n, c, sc, pk, a, k, sh]


def run_mean(case, ctx):
    """Scenarios for the tail, the user's own expected returns for the target (an explicit mu)."""
    n, c, sc, pk, a, kind, sh = case
    spec = data.CONS[n][c]
    R = np.array(data.SCEN[n][sc], float) * 0.01
    q = pvec(pk, len(R))
    m = {"rev": (q @ R)[::-1].copy(), "up": q @ R + 0.01 * np.arange(1, n + 1), "zero": 0.004 * np.array([2.0, -1.0, 1.0, 0.5])[:n]}[sh]
    rl = ref.rules(n, spec)
    w0, pc = cost(n, kind, R)
    tc = None if w0 is None else TransactionCosts(initial_weights=w0, proportional_costs=pc)
    W = PortfolioWrapper(AssetsDistribution(mu=m, scenarios=R, probabilities=q, asset_names=E.NAMES[:n]))
    hi, lo = ref.lp_max(m, n, rl)[1], -ref.lp_max(-m, n, rl)[1]
    for lv in LEV[1:] + [1.0]:
        t = lo + lv * (hi - lo) - (1e-9 if lv == 1.0 else 0.0)
        what = f"{case} level={lv}"
        ctx.state(); ctx.step()
        s, r1, k1 = W.min_cvar_at_return(t, alpha=a, constraints=Constraints(**spec), costs=tc)
        x = np.asarray(s, float)
        ctx.close(r1, float(m @ x), 1e-12, f"{what}: reported return")
        ctx.close(k1, ref.cvar(R @ x, q, a), 1e-10, f"{what}: reported risk")
        v = ref.violation(x, rl + [(m, t, None)])
        ctx.check(v <= 2e-6, lambda: f"{what}: {x.tolist()} infeasible by {v:.2e} (reported return {r1:.6g}, target {t:.6g})")
        b = ref.cvar_lp(R, q, a, n, rl, target=t, w0=w0, cost=pc, mean=m)[0]
        o1 = objective(x, R, q, a, w0, pc)
        ctx.check(o1 <= b + 1e-6 * (1 + abs(b)), lambda: f"{what}: objective {o1:.8g} above optimum {b:.8g}")
    ctx.state(); ctx.step()
    f = W.cvar_frontier(4, alpha=a, enforce_convexity=False, constraints=Constraints(**spec), costs=tc)
    ret, w = np.asarray(f.returns), np.asarray(f.weights)
    ctx.close(ret, m @ w, 1e-12, f"{case}: frontier returns")
    ctx.close(f.risks, [ref.cvar(R @ w[:, j], q, a) for j in range(w.shape[1])], 1e-10, f"{case}: frontier risks")
    if w.shape[1] > 1:
        ctx.close(ret[-1], hi, 1e-6, f"{case}: last return is the attainable maximum")
        grid = np.linspace(ret[0], hi, w.shape[1])
        for j in range(w.shape[1]):
            ctx.check(ret[j] >= grid[j] - 1e-7, lambda: f"{case}: return {ret[j]} below grid target {grid[j]}")
            b = ref.cvar_lp(R, q, a, n, rl, target=min(grid[j], hi) - 1e-12, w0=w0, cost=pc, mean=m)[0]
            o1 = objective(w[:, j], R, q, a, w0, pc)
            ctx.check(o1 <= b + 1e-6 * (1 + abs(b)), lambda: f"{case}: portfolio {j} objective {o1} above optimum {b}")
    ctx.out(f"M={w.shape[1]}")


def gen_sim(tier):
    for typ in ("simple", "log", "posterior"):
        for c in ("box",) if tier == "quick" else ("simplex", "box", "group"):
            for cov in ("pos",) if tier == "quick" else data.COV[2]:
                for seed in (0, 7) if tier == "quick" else (0, 1, 7, 42):
                    for a in (0.05, 0.25):
                        yield [2, c, cov, typ, seed, a]


def run_sim(case, ctx):
    """Moments only: the tail is simulated, the target and the reported return are the user's."""
    from scipy.stats import norm
    n, c, cv, typ, seed, a = case
    spec = data.CONS[n][c]
    S = np.array(data.COV[n][cv], float)
    S = S * (0.03 / np.trace(S) * n)
    m0 = np.array([0.02, 0.05, -0.01, 0.03])[:n]
    cons = Constraints(**spec)
    N = smaller_simulation(1000)

    def mk():
        if typ == "posterior":
            return PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu=m0, sigma=S, s_mu=S / 9), constraints=cons)
        return E.wrapper_moments(n, S, m0, True, return_type=typ)
    W = mk()
    rl = ref.rules(n, spec)
    m, C = m0, S
    if typ != "simple":     # log-normal moments of simple returns
        m = np.expm1(m0 + 0.5 * np.diag(S))
        C = np.outer(1 + m, 1 + m) * np.expm1(S)
    Z = np.expm1(np.random.default_rng(99).multivariate_normal(m0, S, 100000))
    hi, lo = ref.lp_max(m, n, rl)[1], -ref.lp_max(-m, n, rl)[1]

    def risk(x):
        if typ != "posterior":
            return float(-m @ x + norm.pdf(norm.ppf(a)) / a * np.sqrt(max(x @ C @ x, 0)))
        return float(-np.sort(Z @ x)[: int(a * len(Z))].mean())

    def near(x, k1, what):
        sd = float(np.sqrt(max(x @ C @ x, 0)))
        g = risk(x)
        tol = 1e-5 + (6 * sd * np.sqrt(2 / (N * a)) if N else 0.3 * sd)
        ctx.check(abs(k1 - g) <= tol, lambda: f"{what}: simulated risk {k1:.5f}, population risk {g:.5f}")
        return g, tol
    for lv in (-0.5, 0.7):
        t = lo + lv * (hi - lo)
        what = f"{case} level={lv}"
        ctx.state(); ctx.step()
        s, r1, k1 = W.min_cvar_at_return(t, alpha=a, seed=seed, constraints=cons)
        x = np.asarray(s, float)
        if lv > 0:
            s2, r2, k2 = mk().min_cvar_at_return(t, alpha=a, seed=seed, constraints=cons)
            ctx.check(np.array_equal(x, np.asarray(s2, float)) and (r1, k1) == (r2, k2), f"{what}: same seed, different portfolio")
        ctx.close(r1, float(m @ x), 1e-12, f"{what}: reported return")
        v = ref.violation(x, rl + [(m, t, None)])
        ctx.check(v <= 2e-6, lambda: f"{what}: {x.tolist()} infeasible by {v:.2e} (reported return {r1:.6g}, target {t:.6g})")
        g, tol = near(x, k1, what)
        if typ != "posterior":
            V = np.asarray(ref.vertices(n, rl + [(m, t, None)]))
            best = ref.convex_min(risk, V)[0]
            ctx.check(g <= best + tol, lambda: f"{what}: risk {g:.5f} of {x.tolist()} far above the optimum {best:.5f}")
    ctx.state(); ctx.step()
    f = W.cvar_frontier(2, alpha=a, seed=seed, constraints=cons, enforce_convexity=False)
    w = np.asarray(f.weights)
    ctx.close(f.returns, m @ w, 1e-12, f"{case}: frontier returns")
    ctx.close(np.max(f.returns), hi, 1e-6, f"{case}: last return is the attainable maximum")
    for j in range(w.shape[1]):
        ctx.check(ref.violation(w[:, j], rl) <= 2e-6, lambda: f"{case}: frontier portfolio {j} infeasible")
        near(w[:, j], float(np.asarray(f.risks)[j]), f"{case}: frontier portfolio {j}")
    ctx.out(typ)


def smaller_simulation(k):
    """Fewer simulated scenarios where the implementation exposes their number; None when it does not."""
    try:
        kd = PortfolioWrapper._scenario_inputs.__kwdefaults__
        if not isinstance(kd.get("n_simulations"), int):
            return None
        kd["n_simulations"] = k
        return k
    except (AttributeError, TypeError):
        return None


FAMILIES = [
    Family("lp", gen_lp, run_lp, "all constraint sets x scenario matrices x complete probability lattice (zeros included) x tail levels x costs x targets vs independent LP"),
    Family("frontier", gen_front, run_front, "facade frontiers and single targets, five probability kinds, tail levels on and off scenario boundaries, convexity correction on/off"),
    Family("own mean", gen_mean, run_mean, "explicit expected returns next to scenarios: targets, frontiers and optimality judged on the reported mean"),
    Family("simulated", gen_sim, run_sim, "moments only, simple and log: seeded simulation reproducible, targets met in the reported return, simulated tail near the population tail"),
]
