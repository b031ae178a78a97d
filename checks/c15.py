"""C15: the Black-Litterman posterior equals the Bayesian update."""
import itertools
import numpy as np
import pandas as pd
from mc.core import Family
from mc.data import COV
from pyvallocation.views import BlackLittermanProcessor as BL
from pyvallocation.moments import posterior_moments_black_litterman

LEVEL = "model_checking"
RULE = "case = prior (covariance, mean source, tau) x set of views; every uncertainty specification of the grid is applied to it"
ASSUMPTIONS = ["Idzorek confidences 0 and 1 are represented as 1e-6 and 1-1e-6 (documented clipping); compared at 1e-5 there",
               "the posterior mean solves the normal equations of the stacked prior and view observations (information form where invertible, exact conditioning otherwise)"]
LAB = {2: ["b", "a"], 3: ["b", "a", "c"], 4: ["d", "b", "a", "c"]}
SIG = {2: {k: COV[2][k] for k in ("id", "pos", "neg", "hi")}, 3: {k: COV[3][k] for k in ("diag", "pos", "neg", "hi")}, 4: COV[4]}
SING = {2: [[1, 2], [2, 4]], 3: COV[3]["dup"]}
PI = {2: ([0.02, 0.05], [-0.03, 0.0], [0.0, 0.0]), 3: ([0.02, 0.05, 0.03], [-0.03, 0.0, 0.04], [0.0, 0.0, 0.0]), 4: ([0.02, 0.05, 0.03, -0.01],)}
MW = {2: ([0.7, 0.3], [2.0, 6.0], [1.5, -0.5], [0.02, 0.05]), 3: ([0.5, 0.3, 0.2], [10.0, 2.0, 4.0], [1.2, -0.4, 0.2], [0.1, 0.05, 0.2]), 4: ([1.0, 2.0, 3.0, 4.0],)}


def menu(n):
    out = [[i] for i in range(n)]
    for i, j in itertools.permutations(range(n), 2):
        out.append([i, j])
    return out


def posterior(S, pi, tau, P, Q, Om):
    """Conditional distribution of mu ~ N(pi, tau S) given P mu + e = Q, e ~ N(0, Om): independent derivation through
    the joint Gaussian of (mu, P mu + e), by sequential scalar conditioning after whitening Omega."""
    n, k = len(pi), len(Q)
    m, C = np.array(pi, float), tau * np.array(S, float)
    if not k:
        return m, np.array(S, float)
    ev, U = np.linalg.eigh((Om + Om.T) / 2)
    A, y = U.T @ P, U.T @ np.array(Q, float)          # independent observations with variances ev
    for a, t, v in zip(A, y, ev):
        Ca = C @ a
        d = a @ Ca + v
        m = m + Ca * (t - a @ m) / d
        C = C - np.outer(Ca, Ca) / d
    return m, np.array(S, float) + C


def rowmat(views, n):
    P = np.zeros((len(views), n))
    for r, v in enumerate(views):
        P[r, v[0]] = 1
        if len(v) == 2:
            P[r, v[1]] = -1
    return P


TGT = (0.03, -0.02, 0.06, 0.01)


def gen_core(tier):
    for n in (2, 3):
        m = menu(n)
        for sk in SIG[n]:
            for c in [c for r in (1, 2) for c in itertools.combinations(range(len(m)), r)] + ([c for c in itertools.combinations(range(len(m)), 3)] if n == 3 and tier == "thorough" else []):
                if len(c) == 3 and np.linalg.matrix_rank(rowmat([m[i] for i in c], n)) < 3:
                    continue
                yield [n, sk, [m[i] for i in c]]
    for sk in SIG[4]:
        for v in ([[0], [1, 2]], [[3], [0, 1], [2]], [[0], [1], [2], [3]], [[0, 3], [1, 2], [2, 0]]):
            yield [4, sk, v]


def omegas(P, S, tau, k):
    """name -> (kwargs, matrix or None when singular/contradictory)."""
    ts = tau * S
    d = np.diag(P @ ts @ P.T)
    out = {"default": ({}, np.diag(d))}
    for c in (0.05, 0.3, 0.5, 0.9):
        out[f"idz {c}"] = (dict(omega="idzorek", view_confidences=c), np.diag(d * (1 - c) / c))
    cs = [0.2, 0.7, 0.45, 0.9][:k]
    f = np.array([(1 - c) / c for c in cs])
    out["idz list"] = (dict(omega="Idzorek", view_confidences=list(cs)), np.diag(d * f))
    out["idz no tau"] = (dict(omega="idzorek", view_confidences=np.array(cs), idzorek_use_tau=False), np.diag(d / tau * f))
    vec = np.array([1e-4, 3e-3, 5e-2, 1e-3])[:k]
    out["vector"] = (dict(omega=vec.copy()), np.diag(vec))
    B = np.array([[2.0, 0.5, 0, 0.1], [0.5, 1.0, -0.3, 0], [0, -0.3, 3.0, 0.2], [0.1, 0, 0.2, 1.0]])[:k, :k] * 1e-3
    out["matrix"] = (dict(omega=B.copy()), B)
    return out


def run_core(case, ctx):
    n, sk, views = case
    base = np.array(SIG[n][sk], float)
    lab = LAB[n]
    k = len(views)
    P = rowmat(views, n)
    Q = np.array(TGT[:k])
    for scale in (1e-2, 1.0, 1e-7):
        S = base * scale
        for tau in (0.05, 0.5, 1.0) if scale >= 1e-2 else (0.05,):
            for kind, src in [("pi", x) for x in PI[n]] + [("prior_mean", PI[n][0])] + [("market_weights", x) for x in MW[n]]:
                if kind == "market_weights":
                    for delta in (1.0, 2.5):
                        pi = delta * S @ (np.array(src) / sum(src))
                        one(ctx, n, S, lab, tau, {kind: np.array(src), "risk_aversion": delta}, pi, views, P, Q, f"n={n} {sk}*{scale} tau={tau} {kind}={src} delta={delta} views={views}")
                else:
                    one(ctx, n, S, lab, tau, {kind: np.array(src)}, np.array(src), views, P, Q, f"n={n} {sk}*{scale} tau={tau} {kind}={src} views={views}")


def one(ctx, n, S, lab, tau, kw, pi, views, P, Q, what):
    k = len(views)
    idx = {tuple(v) if len(v) == 2 else v[0]: float(q) for v, q in zip(views, Q)}
    keep = {a: np.array(b, copy=True) for a, b in kw.items()}
    for name, (okw, Om) in omegas(P, S, tau, k).items():
        wm, wC = posterior(S, pi, tau, P, Q, Om)
        ctx.state()
        ctx.step()
        bl = BL(prior_cov=S.copy(), tau=tau, mean_views=dict(idx), **kw, **okw)
        m, C = bl.get_posterior()
        ctx.check(isinstance(m, np.ndarray) and m.shape == (n,) and C.shape == (n, n), f"{what} {name}: shape")
        s = np.abs(pi).max() + np.abs(Q).max()
        ctx.close(m / s, wm / s, 1e-7, f"{what} {name}: posterior mean")
        ctx.close(C / S.max(), wC / S.max(), 1e-7, f"{what} {name}: posterior covariance")
        ctx.check(np.array_equal(C, C.T), f"{what} {name}: covariance not symmetric")
        # the update never adds uncertainty beyond the prior predictive
        ctx.check(np.linalg.eigvalsh(S * (1 + tau) - C).min() > -1e-9 * S.max() and np.linalg.eigvalsh(C - S).min() > -1e-9 * S.max(), f"{what} {name}: covariance not between S and (1+tau)S")
    ctx.check(all(np.array_equal(np.asarray(kw[a]), keep[a]) for a in kw), f"{what}: inputs changed")


def gen_conf(tier):
    for n in (2, 3):
        for sk in SIG[n]:
            for v in menu(n):
                yield [n, sk, v]


def run_conf(case, ctx):
    """One view: the viewed combination moves linearly from prior to view as confidence grows."""
    n, sk, v = case
    S = np.array(SIG[n][sk], float) * 0.01
    pi = np.array(PI[n][0])
    P = rowmat([v], n)[0]
    key = tuple(v) if len(v) == 2 else v[0]
    for q in (0.08, -0.05, float(P @ pi)):
        last = None
        for c in [0.0, 1e-3] + [i / 20 for i in range(1, 20)] + [0.999, 1.0]:
            ctx.state()
            ctx.step()
            m, C = BL(prior_cov=S, pi=pi, mean_views={key: q}, omega="idzorek", view_confidences=c).get_posterior()
            ctx.close(P @ m, P @ pi + c * (q - P @ pi), 1e-6, f"{case} q={q} confidence {c}: viewed mean")
            direction = S @ P / (P @ S @ P)
            ctx.close(m, pi + direction * c * (q - P @ pi), 1e-6, f"{case} q={q} confidence {c}: whole mean")
            gap = abs(q - P @ m)
            ctx.check(last is None or gap <= last + 1e-12, f"{case} q={q}: confidence {c} moves away from the view")
            last = gap
            ctx.close(P @ C @ P, (P @ S @ P) * (1 + 0.05 * (1 - c)), 1e-6, f"{case} q={q} confidence {c}: viewed variance")
        last = None
        for w in (1e-8, 1e-6, 1e-4, 1e-2, 1.0, 1e4):
            m, C = BL(prior_cov=S, pi=pi, mean_views={key: q}, omega=[w]).get_posterior()
            gap = abs(P @ m - P @ pi)
            ctx.check(last is None or gap <= last + 1e-12, f"{case} q={q}: a more uncertain view ({w}) moves further")
            last = gap
        m, _ = BL(prior_cov=S, pi=pi, mean_views={key: q}, omega=[0.0]).get_posterior()
        ctx.close(P @ m, q, 1e-9, f"{case}: certain view")


def gen_labels(tier):
    for n in (2, 3):
        for perm in itertools.permutations(range(n)):
            for src in ("pi", "prior_mean", "market_weights"):
                yield [n, list(perm), src]


def run_labels(case, ctx):
    n, perm, src = case
    lab = LAB[n]
    S = np.array(SIG[n]["neg"], float) * 0.01
    cov = pd.DataFrame(S, index=lab, columns=lab)
    vec = np.array(MW[n][0] if src == "market_weights" else PI[n][1])
    ser = pd.Series(vec, index=lab)
    pl = [lab[i] for i in perm]
    views = {lab[0]: 0.04, (lab[1], lab[0]): 0.02}
    idx = {0: 0.04, (1, 0): 0.02}
    conf = {lab[0]: 0.3, (lab[1], lab[0]): 0.8}
    kw = dict(omega="idzorek", risk_aversion=2.0)
    ref_m, ref_C = BL(prior_cov=S, mean_views=idx, view_confidences=[0.3, 0.8], **{src: vec}, **kw).get_posterior()
    want = pd.Series(ref_m, index=lab)
    wC = pd.DataFrame(ref_C, index=lab, columns=lab)

    def chk(tag, ordered=None, **k):
        ctx.state()
        ctx.step()
        m, C = BL(**{**kw, **k}).get_posterior()
        names = ordered or lab
        ctx.check(isinstance(m, pd.Series) and list(m.index) == names and list(C.index) == names and list(C.columns) == names, f"{case} {tag}: labels {getattr(m, 'index', None)}")
        ctx.close(m[lab], want, 1e-9, f"{case} {tag}: mean")
        ctx.close(C.loc[lab, lab], wC, 1e-9, f"{case} {tag}: covariance")

    cov2 = cov.loc[pl, pl]
    keepcov, keepser = cov2.copy(), ser[pl].copy()
    chk("permuted everything", pl, prior_cov=cov2, mean_views=views, view_confidences=conf, **{src: ser[pl]})
    chk("permuted covariance only", pl, prior_cov=cov2, mean_views=views, view_confidences=conf, **{src: ser})
    chk("permuted mean only", lab, prior_cov=cov, mean_views=views, view_confidences=conf, **{src: ser[pl]})
    chk("covariance columns in another order", lab, prior_cov=cov[pl], mean_views=views, view_confidences=conf, **{src: ser})
    chk("views in another order", lab, prior_cov=cov, mean_views=dict(reversed(list(views.items()))), view_confidences=conf, **{src: ser})
    chk("confidences in another order", lab, prior_cov=cov, mean_views=views, view_confidences=dict(reversed(list(conf.items()))), **{src: ser})
    chk("confidence list", lab, prior_cov=cov, mean_views=views, view_confidences=[0.3, 0.8], **{src: ser})
    chk("documented pair key", lab, prior_cov=cov, mean_views=views, view_confidences={lab[0]: 0.3, f"{lab[1]},{lab[0]}": 0.8}, **{src: ser})
    chk("array mean", lab, prior_cov=cov, mean_views=views, view_confidences=conf, **{src: vec})
    chk("one-element lists", lab, prior_cov=cov, mean_views={k: [v] for k, v in views.items()}, view_confidences=conf, **{src: ser})
    ctx.check(cov2.equals(keepcov) and ser[pl].equals(keepser), f"{case}: inputs changed")
    # arrays: positions as int and as strings
    for keys in ({0: 0.04, (1, 0): 0.02}, {"0": 0.04, ("1", "0"): 0.02}):
        m, C = BL(prior_cov=S[np.ix_(perm, perm)], mean_views={(str if isinstance(k, str) else int)(perm.index(int(k))) if not isinstance(k, tuple) else
                  tuple((str if isinstance(x, str) else int)(perm.index(int(x))) for x in k): v for k, v in keys.items()}, view_confidences=[0.3, 0.8], **{src: vec[perm]}, **kw).get_posterior()
        ctx.step()
        ctx.close(m, ref_m[perm], 1e-9, f"{case} positional keys {keys}")
        ctx.close(C, ref_C[np.ix_(perm, perm)], 1e-9, f"{case} positional keys {keys}: covariance")
    # full vectors
    tg = np.array([0.03, -0.01, 0.02])[:n]
    full, fC = BL(prior_cov=S, mean_views={i: tg[i] for i in range(n)}, view_confidences=0.4, **{src: vec}, **kw).get_posterior()
    ts = pd.Series(tg, index=lab)
    for tag, f in {"Series": ts, "Series permuted": ts[pl], "array": tg.copy(), "list": tg.tolist(), "dict": dict(zip(lab, tg)), "column": tg.reshape(-1, 1)}.items():
        m, C = BL(prior_cov=cov, mean_views=f, view_confidences=0.4, **{src: ser}, **kw).get_posterior()
        ctx.step()
        ctx.close(m[lab], full, 1e-9, f"{case} vector views as {tag}")
        ctx.close(C.loc[lab, lab], fC, 1e-9, f"{case} vector views as {tag}: covariance")
    m0, C0 = BL(prior_cov=S, mean_views=tg.copy(), view_confidences=np.linspace(0.2, 0.8, n), **{src: vec}, **kw).get_posterior()
    cs = pd.Series(np.linspace(0.2, 0.8, n), index=lab)
    m, C = BL(prior_cov=cov, mean_views=ts, view_confidences=cs[pl], **{src: ser}, **kw).get_posterior()
    ctx.close(m[lab], m0, 1e-9, f"{case} labelled confidences")
    # helper in moments
    m, C = posterior_moments_black_litterman(prior_cov=cov, mean_views=views, view_confidences=conf, risk_aversion=2.0, **({src: ser} if src != "pi" else {"pi": ser}))
    ctx.step()
    ctx.close(m[lab], want, 1e-9, f"{case} posterior_moments_black_litterman")
    ctx.close(C.loc[lab, lab], wC, 1e-9, f"{case} posterior_moments_black_litterman: covariance")
    # confidence 0 and a confidence left out (documented default: full confidence), an asymmetric covariance is symmetrised
    for cd, cl in (({lab[0]: 0.0, (lab[1], lab[0]): 0.8}, [0.0, 0.8]), ({lab[0]: 0.3, (lab[1], lab[0]): 0}, [0.3, 0.0]), ({lab[0]: 0.3}, [0.3, 1.0]), ({(lab[1], lab[0]): 0.6}, [1.0, 0.6])):
        w0, wc0 = BL(prior_cov=S, mean_views={0: 0.04, (1, 0): 0.02}, view_confidences=cl, **{src: vec}, **kw).get_posterior()
        m, C = BL(prior_cov=cov2, mean_views=views, view_confidences=cd, **{src: ser}, **kw).get_posterior()
        ctx.step()
        ctx.close(m[lab], w0, 1e-9, f"{case} confidences {cd}")
        ctx.close(C.loc[lab, lab], wc0, 1e-9, f"{case} confidences {cd}: covariance")
    for eps in (1e-3, 1e-5):
        skew = np.triu(np.full((n, n), eps), 1)
        skew = skew - skew.T
        m, C = BL(prior_cov=S + skew, mean_views={0: 0.04, (1, 0): 0.02}, view_confidences=[0.3, 0.8], **{src: vec}, **kw).get_posterior()
        ctx.step()
        ctx.close(m, ref_m, 1e-9, f"{case} asymmetric covariance")
        ctx.close(C, ref_C, 1e-9, f"{case} asymmetric covariance: posterior covariance")
    # explicit view variances together with confidences: the variances decide, in the class and in the helper
    for om in ([0.004, 0.02], np.array([[0.004, 0.001], [0.001, 0.02]])):
        w0, wc0 = BL(prior_cov=S, mean_views={0: 0.04, (1, 0): 0.02}, omega=om, risk_aversion=2.0, **{src: vec}).get_posterior()
        for f in (lambda **k: BL(**k).get_posterior(), posterior_moments_black_litterman):
            m, C = f(prior_cov=cov, mean_views=views, view_confidences=conf, omega=om, risk_aversion=2.0, **{src: ser})
            ctx.step()
            ctx.close(m[lab], w0, 1e-9, f"{case} omega with confidences")
            ctx.close(C.loc[lab, lab], wc0, 1e-9, f"{case} omega with confidences: covariance")
    # no views
    pi = 2.0 * S @ (vec / vec.sum()) if src == "market_weights" else vec
    for mv in (None, {}):
        m, C = BL(prior_cov=cov, mean_views=mv, risk_aversion=2.0, **{src: ser[pl]}).get_posterior()
        ctx.step()
        ctx.close(m[lab], pi, 1e-12, f"{case} no views")
        ctx.close(C.loc[lab, lab], S, 1e-12, f"{case} no views: covariance")


def gen_bad(tier):
    yield [0]


def run_bad(case, ctx):
    lab = LAB[3]
    S = np.array(SIG[3]["pos"], float) * 0.01
    cov = pd.DataFrame(S, index=lab, columns=lab)
    pi = pd.Series(PI[3][0], index=lab)
    nan = float("nan")
    ok = dict(prior_cov=cov, pi=pi)
    bad = {
        "no prior mean": dict(prior_cov=cov), "risk aversion 0": dict(prior_cov=cov, market_weights=[1, 1, 1], risk_aversion=0.0), "risk aversion < 0": dict(prior_cov=cov, market_weights=[1, 1, 1], risk_aversion=-1.0),
        "pi and market weights": dict(ok, market_weights=[0.3, 0.3, 0.4]), "pi and prior mean": dict(ok, prior_mean=pi), "two equal sources": dict(ok, prior_mean=pi, market_weights=[0.3, 0.3, 0.4]),
        "market weights and prior mean": dict(prior_cov=cov, market_weights=[0.3, 0.3, 0.4], prior_mean=pi),
        "unknown asset": dict(ok, mean_views={"z": 0.1}), "unknown pair": dict(ok, mean_views={("b", "z"): 0.1}), "position out of range": dict(prior_cov=S, pi=PI[3][0], mean_views={3: 0.1}),
        "negative position": dict(prior_cov=S, pi=PI[3][0], mean_views={-1: 0.1}), "inequality": dict(ok, mean_views={"b": (">=", 0.1)}), "vector length": dict(ok, mean_views=[0.1, 0.2]),
        "nan view": dict(ok, mean_views={"b": nan}), "idzorek without confidences": dict(ok, mean_views={"b": 0.1}, omega="idzorek"),
        "confidence length": dict(ok, mean_views={"b": 0.1}, omega="idzorek", view_confidences=[0.1, 0.2]), "omega length": dict(ok, mean_views={"b": 0.1}, omega=[0.1, 0.2]),
        "omega shape": dict(ok, mean_views={"b": 0.1, "a": 0.0}, omega=np.eye(3)), "rectangular covariance": dict(prior_cov=S[:, :2], pi=[0.1, 0.2]),
        "pi length": dict(prior_cov=S, pi=[0.1, 0.2]), "prior mean length": dict(prior_cov=S, prior_mean=[0.1] * 4), "market weights length": dict(prior_cov=S, market_weights=[0.5, 0.5]),
        "nan pi": dict(prior_cov=S, pi=[nan, 0, 0]), "foreign pi labels": dict(prior_cov=cov, pi=pi.rename({"b": "z"})), "foreign market labels": dict(prior_cov=cov, market_weights=pi.rename({"b": "z"})),
        "foreign covariance columns": dict(prior_cov=cov.rename(columns={"b": "z"}), pi=PI[3][0]), "foreign view vector": dict(ok, mean_views=pi.rename({"b": "z"})),
    }
    for k, kw in bad.items():
        ctx.state()
        ctx.raises(lambda: BL(**kw), Exception, k)


FAMILIES = [
    Family("posterior", gen_core, run_core, "n in {2,3,4}; all sets of 1-2 (3) absolute and relative views; 9 uncertainty specifications; 3 taus; 6-9 priors; 2 scales"),
    Family("confidence path", gen_conf, run_conf, "every view x 23 confidences x 3 targets, 6 view variances"),
    Family("labels and forms", gen_labels, run_labels, "all asset orders x prior source; views and confidences by name, pair, position, vector"),
    Family("rejection", gen_bad, run_bad, "malformed inputs"),
]
