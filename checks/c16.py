"""C16: Bayesian posteriors combine prior and data by their documented weights."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc.data import COV
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile
from pyvallocation.moments import posterior_moments_niw, posterior_moments_niw_with_uncertainty

LEVEL = "model_checking"
RULE = "case = (prior mean, prior scale, sample mean, sample covariance) on which every strength triple (t0, nu0, T) is applied; or one data set on which every partition into batches and every order is applied"
ASSUMPTIONS = ["the chi-square quantile is compared with an independent evaluation of the chi-square distribution function (closed-form recursion)"]
LAB = {1: ["x"], 2: ["b", "a"], 3: ["b", "a", "c"], 4: ["d", "b", "a", "c"]}
SIG = {1: {"one": [[2.0]]}, 2: {k: COV[2][k] for k in ("id", "pos", "neg", "hi")}, 3: {k: COV[3][k] for k in ("diag", "pos", "neg", "hi")}, 4: COV[4]}
MUS = {1: ([0.5], [-1.0]), 2: ([0.25, 1.0], [-0.5, 0.5], [0.0, 0.0]), 3: ([0.25, -0.5, 1.0], [0.0, 0.0, 0.0]), 4: ([0.25, -0.5, 1.0, 0.0], [1.0, 0.5, -0.25, 0.0])}
STR = {"quick": ((1, 3, 60), (0, 1, 5, 60), (1, 2, 7, 120)), "thorough": ((1, 2, 3, 10, 60, 1000), (0, 1, 2, 5, 60, 1000), (1, 2, 3, 7, 30, 120, 2500))}
PS = {"quick": (0.05, 0.5, 0.9), "thorough": (0.01, 0.05, 0.25, 0.5, 0.75, 0.9, 0.99)}


def chi2_cdf(x, k):
    """Chi-square distribution function for integer dof by the finite recursion (erf / exponential base)."""
    if x <= 0:
        return 0.0
    if k % 2:
        q, t, i = math.erfc(math.sqrt(x / 2)), math.sqrt(2 * x / math.pi) * math.exp(-x / 2), 1
    else:
        q, t, i = math.exp(-x / 2), x / 2 * math.exp(-x / 2), 2
    while i < k:
        q += t
        i += 2
        t *= x / i
    return 1 - q


QC = {}


def quant(p, k):
    if (p, k) not in QC:
        lo, hi = 0.0, 10.0 * k + 200
        for _ in range(200):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if chi2_cdf(m, k) < p else (lo, m)
        QC[p, k] = (lo + hi) / 2
    return QC[p, k]


def ref(m0, S0, t0, v0, m, S, T):
    m0, m, S0, S = (np.array(a, float) for a in (m0, m, S0, S))
    T1, v1 = t0 + T, v0 + T
    d = m - m0
    return T1, m0 + (T / T1) * d, v1, (v0 * S0 + T * S + (t0 * T / T1) * np.outer(d, d)) / v1


def pd_ok(ctx, M, msg):
    M = np.asarray(M, float)
    ctx.check(np.array_equal(M, M.T) or np.max(np.abs(M - M.T)) <= 1e-14 * np.max(np.abs(M)), msg + ": not symmetric")
    ev = np.linalg.eigvalsh((M + M.T) / 2)
    ctx.check(ev[0] >= -1e-12 * max(ev[-1], 1e-300), msg + ": not positive semidefinite")


def derived(ctx, niw, rob, want, n, ps, msg):
    """Every number derived from the posterior, against its documented formula."""
    T1, m1, v1, S1 = want
    ctx.close(niw.get_mu_ce(), m1, 1e-11, msg + ": mean")
    ctx.close(niw.get_sigma_ce(), S1 * v1 / (v1 + n + 1), 1e-11, msg + ": classical-equivalent covariance")
    pd_ok(ctx, niw.get_sigma_ce(), msg)
    prev = None
    for p in ps:
        q = quant(p, n * (n + 1) // 2)
        c = v1 / (v1 + n + 1) + math.sqrt(2 * v1 ** 2 * q / (v1 + n + 1) ** 3)
        ctx.close(niw.cred_radius_sigma_factor(p), c, 1e-9, msg + f": C_sigma({p})")
        ctx.step()
        if rob is not None:
            ctx.close(rob.cred_radius_sigma_factor(p), c, 1e-9, msg + f": robust C_sigma({p})")
    if v1 <= 2:
        ctx.raises(niw.get_S_mu, ValueError, msg + ": S_mu undefined for nu1<=2")
        ctx.raises(lambda: niw.cred_radius_mu(0.5), ValueError, msg + ": gamma undefined for nu1<=2")
        return
    Smu = S1 * v1 / (v1 - 2) / T1
    ctx.close(niw.get_S_mu(), Smu, 1e-11, msg + ": S_mu")
    pd_ok(ctx, niw.get_S_mu(), msg)
    for p in ps:
        g = math.sqrt(quant(p, n) / T1 * v1 / (v1 - 2))
        got = niw.cred_radius_mu(p)
        ctx.step()
        ctx.close(got, g, 1e-9, msg + f": gamma_mu({p})")
        ctx.check(prev is None or got > prev, msg + ": the radius does not grow with confidence")
        prev = got
        if rob is not None:
            ctx.close(rob.cred_radius_mu(p), g, 1e-9, msg + f": robust gamma_mu({p})")
    if rob is None:
        return
    ctx.close(rob.mu, m1, 1e-11, msg + ": robust mu")
    ctx.close(rob.sigma, S1 * v1 / (v1 + n + 1), 1e-11, msg + ": robust sigma")
    ctx.close(rob.s_mu, Smu, 1e-11, msg + ": robust s_mu")
    ctx.close(rob.sigma1, S1, 1e-10, msg + ": robust sigma1")
    for h in (1.0, 4.0, 0.25):
        ctx.close(rob.mean_uncertainty_cov_log(annualization_factor=h), h * h * Smu, 1e-11, msg + f": log mean uncertainty h={h}")
        sc = np.exp(h * m1)
        ctx.close(rob.mean_uncertainty_cov_simple(annualization_factor=h), np.outer(sc, sc) * Smu * h * h, 1e-9, msg + f": simple mean uncertainty h={h}")
        sx = np.exp(h * m1 + 0.5 * h * np.diag(S1) * v1 / (v1 + n + 1))
        ctx.close(rob.mean_uncertainty_cov_simple(annualization_factor=h, exact=True), np.outer(sx, sx) * Smu * h * h, 1e-9, msg + f": exact simple mean uncertainty h={h}")
        ctx.step(3)
    ctx.close(rob.mean_uncertainty_cov_log(), Smu, 1e-11, msg + ": default horizon")
    ctx.close(rob.mean_uncertainty_cov_simple(), np.outer(np.exp(m1), np.exp(m1)) * Smu, 1e-9, msg + ": default horizon (simple)")
    ctx.close(rob.cred_radius_mu(), math.sqrt(quant(0.75, n) / T1 * v1 / (v1 - 2)), 1e-9, msg + ": default confidence")


def gen_update(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        ks = list(SIG[n])
        for a, b in itertools.product(ks, ks):
            for i, j in itertools.product(range(len(MUS[n])), repeat=2):
                yield {"n": n, "S0": a, "S": b, "m0": i, "m": j, "tier": tier}


def run_update(c, ctx):
    n = c["n"]
    S0, S = (np.array(SIG[n][c[k]], float) for k in ("S0", "S"))
    m0, m = MUS[n][c["m0"]], MUS[n][c["m"]]
    for scale in (1.0, 1e-4, 1e-8):
        u = math.sqrt(scale)
        for t0, v0, T in itertools.product(*STR[c["tier"]]):
            args = (np.array(m0) * u, S0 * scale, t0, v0, np.array(m) * u, S * scale, T)
            want = ref(*args)
            msg = f"t0={t0} nu0={v0} T={T} scale={scale}"
            ctx.state()
            niw = NIWPosterior(prior_mu=args[0], prior_sigma=args[1], t0=t0, nu0=v0)
            ctx.check(not niw.is_updated, msg + ": updated before any data")
            r = niw.update(sample_mu=args[4], sample_sigma=args[5], n_obs=T)
            ctx.step()
            ctx.check(niw.is_updated, msg + ": not updated")
            ctx.close([r.T1, r.nu1], [want[0], want[2]], 1e-12, msg + ": counts")
            ctx.close(np.asarray(r.mu1) / u, want[1] / u, 1e-11, msg + ": mu1")
            ctx.close(np.asarray(r.sigma1) / scale, want[3] / scale, 1e-11, msg + ": sigma1")
            kw = dict(prior_mu=args[0], prior_sigma=args[1], t0=t0, nu0=v0, sample_mu=args[4], sample_sigma=args[5], n_obs=T)
            rob = None
            if want[2] > 2:
                rob = RobustBayesPosterior.from_niw(**kw)
                a, b, s = posterior_moments_niw_with_uncertainty(**kw)
                ctx.close(s / scale, want[3] * want[2] / (want[2] - 2) / want[0] / scale, 1e-11, msg + ": adapter S_mu")
                ctx.close(a / u, want[1] / u, 1e-11, msg + ": adapter mean")
                ctx.close(b / scale, want[3] * want[2] / (want[2] + n + 1) / scale, 1e-11, msg + ": adapter covariance")
            else:
                ctx.raises(lambda: posterior_moments_niw_with_uncertainty(**kw), ValueError, msg + ": adapter S_mu undefined")
            a, b = posterior_moments_niw(**kw)
            ctx.close(a / u, want[1] / u, 1e-11, msg + ": adapter mean")
            ctx.close(b / scale, want[3] * want[2] / (want[2] + n + 1) / scale, 1e-11, msg + ": adapter covariance")
            ctx.step(3)
            if scale >= 1e-4:
                derived(ctx, niw, rob, want, n, PS[c["tier"]], msg)
            ctx.out("defined" if want[2] > 2 else "S_mu undefined")


def comps(k):
    if k == 0:
        yield ()
        return
    for a in range(1, k + 1):
        for r in comps(k - a):
            yield (a,) + r


DATA = {1: [[1], [-2], [4], [0], [3], [-1]], 2: [[1, 3], [-2, 1], [0, -4], [3, 2], [1, 1], [-1, 2]], 3: [[1, 3, -1], [-2, 1, 2], [0, -4, 1], [3, 2, -2], [1, 0, 1], [2, 2, -3]]}


def gen_batch(tier):
    K = 5 if tier == "quick" else 6
    for n in (1, 2, 3):
        for s in SIG[n]:
            for t0, v0 in ((1, 0), (2, 5), (10, 1)):
                for T in range(2, K + 1):
                    yield {"n": n, "S0": s, "t0": t0, "nu0": v0, "T": T}


def stats(X):
    X = np.array(X, float)
    m = X.mean(0)
    return m, (X - m).T @ (X - m) / len(X)


def run_batch(c, ctx):
    n, T = c["n"], c["T"]
    S0 = np.array(SIG[n][c["S0"]], float)
    m0 = np.array(MUS[n][0], float)
    want = ref(m0, S0, c["t0"], c["nu0"], *stats(DATA[n][:T]), T)
    # independent sequential (one observation at a time) recursion, in scatter form
    k, v, mu, A = c["t0"], c["nu0"], m0.copy(), c["nu0"] * S0
    for x in np.array(DATA[n][:T], float):
        A = A + (k / (k + 1)) * np.outer(x - mu, x - mu)
        mu = mu + (x - mu) / (k + 1)
        k, v = k + 1, v + 1
    ctx.close(want[3], A / v, 1e-12, "reference self-check")
    orders = list(itertools.permutations(range(T))) if T <= 3 else [tuple(range(T)), tuple(reversed(range(T)))]
    for order in orders:
        X = [DATA[n][i] for i in order]
        for parts in comps(T):
            ctx.state()
            cur = (m0, S0, c["t0"], c["nu0"])
            pos = 0
            for b in parts:
                p = NIWPosterior(prior_mu=cur[0], prior_sigma=cur[1], t0=cur[2], nu0=cur[3])
                mm, SS = stats(X[pos:pos + b])
                r = p.update(mm, SS, b)
                ctx.step()
                cur = (np.asarray(r.mu1), np.asarray(r.sigma1), r.T1, r.nu1)
                pos += b
            msg = f"order {order} batches {parts}"
            ctx.close([cur[2], cur[3]], [want[0], want[2]], 1e-12, msg + ": counts")
            ctx.close(cur[0], mu, 1e-10, msg + ": mean")
            ctx.close(cur[1], A / v, 1e-10, msg + ": scale")
            ctx.out(f"{len(parts)} batches")


def gen_mono(tier):
    for n in (1, 2, 3, 4):
        for s in SIG[n]:
            yield {"n": n, "S": s, "tier": tier}


def run_mono(c, ctx):
    """Growing sample size (prior equal to the data) and growing prior strength shrink every uncertainty, monotonically."""
    n = c["n"]
    S, m = np.array(SIG[n][c["S"]], float), np.array(MUS[n][0], float)
    grid = (1, 2, 3, 5, 8, 13, 40, 200, 5000)
    for axis in range(3):
        prev = None
        for g in grid:
            t0, v0, T = [(5, 5, g), (g, 5, 5), (5, g, 5)][axis]
            p = NIWPosterior(prior_mu=m, prior_sigma=S, t0=t0, nu0=v0)
            p.update(m, S, T)
            ctx.step()
            ctx.state()
            now = (np.trace(p.get_S_mu()), p.cred_radius_mu(0.9))
            ctx.close(p.get_mu_ce(), m, 1e-12, "agreeing prior and data change the mean")
            if prev is not None:
                ctx.check(now[0] < prev[0] and now[1] < prev[1], f"uncertainty grows with axis {axis} at {g}")
            prev = now
            q = [p.cred_radius_sigma_factor(x) for x in (0.01, 0.1, 0.5, 0.9, 0.99)]
            ctx.check(all(a < b for a, b in zip(q, q[1:])), "covariance radius does not grow with confidence")


def gen_labels(tier):
    for n in (2, 3):
        for p in itertools.permutations(range(n)):
            for v0 in (2, 9):
                yield {"n": n, "perm": p, "nu0": v0}


def run_labels(c, ctx):
    n, pm = c["n"], c["perm"]
    lab = LAB[n]
    S0, S = (np.array(SIG[n][k], float) for k in ("pos", "neg"))
    m0, m = MUS[n][0], MUS[n][1]
    base = ref(m0, S0, 3, c["nu0"], m, S, 7)
    D = lambda M: pd.DataFrame(M, index=lab, columns=lab)
    V = lambda v: pd.Series(v, index=lab)
    o = [lab[i] for i in pm]

    def verify(kw, msg, order):
        idx = [lab.index(x) for x in order]
        niw = NIWPosterior(**{k: kw[k] for k in ("prior_mu", "prior_sigma", "t0", "nu0")})
        r = niw.update(kw["sample_mu"], kw["sample_sigma"], kw["n_obs"])
        rob = RobustBayesPosterior.from_niw(**kw)
        a, b = posterior_moments_niw(**kw)
        a2, b2, s2 = posterior_moments_niw_with_uncertainty(**kw)
        ctx.step(4)
        ctx.state()
        f = base[2] / (base[2] + n + 1)
        g = base[2] / (base[2] - 2) / base[0]
        for nm, vec in (("mu1", r.mu1), ("mu_ce", niw.get_mu_ce()), ("robust mu", rob.mu), ("adapter", a), ("adapter3", a2)):
            ctx.check(isinstance(vec, pd.Series) and list(vec.index) == list(order), f"{msg}: labels of {nm}")
            ctx.close(np.asarray(vec), base[1][idx], 1e-11, f"{msg}: {nm}")
        for nm, M, k in (("sigma1", r.sigma1, 1), ("sigma_ce", niw.get_sigma_ce(), f), ("S_mu", niw.get_S_mu(), g), ("robust sigma", rob.sigma, f), ("robust s_mu", rob.s_mu, g),
                         ("robust sigma1", rob.sigma1, 1), ("adapter", b, f), ("adapter3", b2, f), ("adapter S_mu", s2, g),
                         ("log uncertainty", rob.mean_uncertainty_cov_log(annualization_factor=2.0), 4 * g)):
            ctx.check(isinstance(M, pd.DataFrame) and list(M.index) == list(order) == list(M.columns), f"{msg}: labels of {nm}")
            ctx.close(np.asarray(M), base[3][np.ix_(idx, idx)] * k, 1e-11, f"{msg}: {nm}")

    k = dict(t0=3, nu0=c["nu0"], n_obs=7)
    verify(dict(k, prior_mu=V(m0), prior_sigma=D(S0), sample_mu=V(m), sample_sigma=D(S)), "aligned", lab)
    verify(dict(k, prior_mu=V(m0)[o], prior_sigma=D(S0).loc[o, o], sample_mu=V(m)[o], sample_sigma=D(S).loc[o, o]), "all permuted", o)
    # samples supplied in another order than the prior: matched by name
    verify(dict(k, prior_mu=V(m0), prior_sigma=D(S0), sample_mu=V(m)[o], sample_sigma=D(S).loc[o, o]), "sample permuted", lab)
    verify(dict(k, prior_mu=V(m0), prior_sigma=D(S0), sample_mu=V(m), sample_sigma=D(S).loc[o, o]), "sample covariance permuted", lab)
    verify(dict(k, prior_mu=V(m0), prior_sigma=D(S0), sample_mu=V(m)[o], sample_sigma=D(S)), "sample mean permuted", lab)
    verify(dict(k, prior_mu=V(m0), prior_sigma=S0, sample_mu=m, sample_sigma=S), "prior mean labelled", lab)
    verify(dict(k, prior_mu=m0, prior_sigma=D(S0), sample_mu=V(m)[o], sample_sigma=S), "prior covariance labelled", lab)
    foreign = {lab[0]: "zz"}
    mk = lambda **kw: lambda: posterior_moments_niw(**dict(dict(k, prior_mu=V(m0), prior_sigma=D(S0), sample_mu=V(m), sample_sigma=D(S)), **kw))
    ctx.raises(mk(sample_mu=V(m).rename(foreign)), Exception, "foreign sample mean labels")
    ctx.raises(mk(sample_sigma=D(S).rename(index=foreign, columns=foreign)), Exception, "foreign sample covariance labels")
    ctx.raises(mk(prior_sigma=D(S0).rename(index=foreign, columns=foreign)), Exception, "foreign prior covariance labels")
    ctx.raises(mk(prior_mu=m0, prior_sigma=D(S0).rename(columns=foreign)), Exception, "prior covariance with differing rows and columns")


def gen_quant(tier):
    for k in range(1, 25 if tier == "quick" else 121):
        yield {"dof": k}


def run_quant(c, ctx):
    prev = None
    for p in (1e-6, 0.001, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6):
        q = chi2_quantile(p, c["dof"])
        ctx.step()
        ctx.state()
        ctx.close(chi2_cdf(q, c["dof"]), p, 1e-9, f"distribution function at the {p} quantile")
        ctx.close(chi2_quantile(p, c["dof"], sqrt=True) ** 2, q, 1e-12, "square root form")
        ctx.check(prev is None or q > prev, "quantile not increasing")
        prev = q
    for p in (0.0, 1.0, -0.1, 1.5, float("nan")):
        ctx.raises(lambda: chi2_quantile(p, c["dof"]), ValueError, f"p={p}")


def gen_bad(tier):
    yield {"bad": 1}


def run_bad(c, ctx):
    S = np.array(SIG[2]["pos"], float)
    nan, inf = float("nan"), float("inf")
    ok = dict(prior_mu=[0.1, 0.2], prior_sigma=S, t0=3, nu0=4, sample_mu=[0.0, 0.1], sample_sigma=S, n_obs=5)
    for k, kw in {
        "t0=0": dict(t0=0), "t0<0": dict(t0=-1), "nu0<0": dict(nu0=-1), "n_obs=0": dict(n_obs=0), "n_obs<0": dict(n_obs=-3), "t0 nan": dict(t0=nan), "nu0 nan": dict(nu0=nan), "n_obs nan": dict(n_obs=nan),
        "mu length": dict(prior_mu=[0.1]), "mu 2d": dict(prior_mu=[[0.1, 0.2]]), "empty": dict(prior_mu=[]), "sigma shape": dict(prior_sigma=S[:, :1]), "sigma size": dict(prior_sigma=np.eye(3)),
        "sample mu length": dict(sample_mu=[0.1]), "sample sigma size": dict(sample_sigma=np.eye(3)), "indefinite prior": dict(prior_sigma=[[1, 2], [2, 1]]), "indefinite sample": dict(sample_sigma=[[1, 2], [2, 1]]),
        "nan prior mean": dict(prior_mu=[nan, 0.1]), "inf sample mean": dict(sample_mu=[inf, 0.1]), "nan sample covariance": dict(sample_sigma=[[nan, 0], [0, 1]]), "nan prior covariance": dict(prior_sigma=[[1, nan], [nan, 1]]),
        "inf prior covariance": dict(prior_sigma=[[inf, 0], [0, 1]]),
    }.items():
        ctx.state()
        for f in (posterior_moments_niw, posterior_moments_niw_with_uncertainty, RobustBayesPosterior.from_niw):
            ctx.raises(lambda: f(**dict(ok, **kw)), Exception, f"{k} via {f.__name__}")
    p = NIWPosterior([0.1, 0.2], S, 3, 4)
    for f in (p.get_mu_ce, p.get_sigma_ce, p.get_S_mu, lambda: p.cred_radius_mu(0.5), lambda: p.cred_radius_sigma_factor(0.5)):
        ctx.raises(f, RuntimeError, "query before update")
    p.update([0.0, 0.1], S, 5)
    first = (np.array(p.get_mu_ce()), np.array(p.get_sigma_ce()))
    ctx.raises(lambda: p.update([1.0, 1.0], S, 5), RuntimeError, "second update")
    ctx.close(p.get_mu_ce(), first[0], 0, "refused update changed the mean")
    ctx.close(p.get_sigma_ce(), first[1], 0, "refused update changed the covariance")
    for q in (0.0, 1.0, -1.0, 2.0, nan):
        ctx.raises(lambda: p.cred_radius_mu(q), ValueError, f"p_mu={q}")
        ctx.raises(lambda: p.cred_radius_sigma_factor(q), ValueError, f"p_sigma={q}")
    bare = RobustBayesPosterior(mu=np.array([0.1, 0.2]), sigma=S, s_mu=S)
    for f in (bare.cred_radius_mu, bare.cred_radius_sigma_factor, lambda: bare.sigma1):
        ctx.raises(f, ValueError, "posterior parameters unavailable")
    # real-valued prior strengths are honoured, not truncated
    for t0, v0, T in ((0.5, 2.5, 3), (1.75, 0.25, 4), (2.9, 7.9, 2)):
        w = ref(ok["prior_mu"], S, t0, v0, ok["sample_mu"], S * 2, T)
        kw = dict(ok, t0=t0, nu0=v0, n_obs=T, sample_sigma=S * 2)
        a, b, s = posterior_moments_niw_with_uncertainty(**kw)
        ctx.close(a, w[1], 1e-11, f"t0={t0}: mean")
        ctx.close(b, w[3] * w[2] / (w[2] + 3), 1e-11, f"nu0={v0}: covariance")
        ctx.close(s, w[3] * w[2] / (w[2] - 2) / w[0], 1e-11, f"t0={t0} nu0={v0}: mean uncertainty")
        ctx.close(posterior_moments_niw(**kw)[0], w[1], 1e-11, f"t0={t0}: adapter")
        r = RobustBayesPosterior.from_niw(**kw)
        ctx.close(r.mu, w[1], 1e-11, f"t0={t0}: robust mean")
        ctx.close(r.cred_radius_mu(0.9), math.sqrt(quant(0.9, 2) / w[0] * w[2] / (w[2] - 2)), 1e-9, f"t0={t0}: robust radius")


FAMILIES = [
    Family("update", gen_update, run_update, "n in {1,2,3(,4)}; all prior x sample covariances and means; 48 (252) strength triples; 2 data scales; all derived quantities"),
    Family("batches", gen_batch, run_batch, "all compositions of up to 5 (6) observations into batches, all orders up to 3, prior chained from the previous posterior"),
    Family("monotonicity", gen_mono, run_mono, "9-point chains in sample size, mean strength and covariance strength"),
    Family("labels", gen_labels, run_labels, "all asset orders of prior and sample inputs, 7 labelling patterns"),
    Family("quantiles", gen_quant, run_quant, "dof 1..24 (120) x 13 levels"),
    Family("rejection and real strengths", gen_bad, run_bad, "malformed inputs through three entry points"),
]
