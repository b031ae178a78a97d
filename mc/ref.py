"""Reference models: deliberately plain re-statements of the definitions."""
from __future__ import annotations
import itertools
import numpy as np
from fractions import Fraction as Fr

TOLF = 2e-6      # feasibility tolerance accepted from the numerical solvers


# ---------------------------------------------------------------- constraint rules
def rules(n, spec):
    """Spec (dict) -> list of (coef, lo, hi): lo <= coef.w <= hi (None = open)."""
    out = []
    lo_only = spec.get("long_only", True)
    if lo_only:
        for i in range(n):
            e = np.zeros(n); e[i] = 1
            out.append((e, 0.0, None))
    tw = spec.get("total_weight", 1.0)
    if tw is not None:
        out.append((np.ones(n), float(tw), float(tw)))
    b = spec.get("bounds")
    if b is not None:
        if isinstance(b, tuple):
            pairs = {i: b for i in range(n)}
        elif isinstance(b, dict):
            pairs = b
        else:
            pairs = dict(enumerate(b))
        for i, (l, u) in pairs.items():
            e = np.zeros(n); e[i] = 1
            out.append((e, l, u))
    for (i, j, k) in spec.get("relative_bounds") or ():
        e = np.zeros(n); e[i] = 1; e[j] = -1
        out.append((e, None, float(k)))
    for _, (idx, l, u) in (spec.get("group_constraints") or {}).items():
        e = np.zeros(n)
        for i in idx:
            e[i] = 1
        out.append((e, float(l), float(u)))
    for row, r in spec.get("additional_G_h") or ():
        out.append((np.asarray(row, float), None, float(r)))
    for row, r in spec.get("additional_A_b") or ():
        out.append((np.asarray(row, float), float(r), float(r)))
    return out


def violation(w, rl):
    """Largest rule violation of w (0 when satisfied)."""
    v = 0.0
    for c, l, u in rl:
        x = float(np.dot(c, w))
        if l is not None:
            v = max(v, l - x)
        if u is not None:
            v = max(v, x - u)
    return v


def split(rl, n):
    """Rules -> (G,h,A,b) in own layout."""
    G, h, A, b = [], [], [], []
    for c, l, u in rl:
        if l is not None and u is not None and l == u:
            A.append(c); b.append(l)
            continue
        if u is not None:
            G.append(c); h.append(u)
        if l is not None:
            G.append(-c); h.append(-l)
    def arr(r):
        return np.array(r, float).reshape(-1, n)
    G, A = arr(G), arr(A)
    h, b = np.array(h, float), np.array(b, float)
    if len(G):
        _, keep = np.unique(np.round(np.column_stack([G, h]), 12), axis=0, return_index=True)
        keep = np.sort(keep)
        G, h = G[keep], h[keep]
    return G, h, A, b


def independent_rows(A, b, tol=1e-10):
    """Row-reduce equalities; returns (A,b) independent or None when inconsistent."""
    if len(A) == 0:
        return A, b
    R, rb = [], []
    for a, y in zip(A, b):
        if R:
            x, *_ = np.linalg.lstsq(np.array(R).T, a, rcond=None)
            res = a - np.array(R).T @ x
            if np.linalg.norm(res) < 1e-9:
                if abs(np.dot(x, rb) - y) > 1e-9:
                    return None
                continue
        elif np.linalg.norm(a) < 1e-12:
            if abs(y) > 1e-12:
                return None
            continue
        R.append(a); rb.append(y)
    return np.array(R).reshape(-1, A.shape[1]), np.array(rb)


def vertices(n, rl, tol=1e-9):
    """All vertices of the polyhedron (complete enumeration of bases)."""
    G, h, A, b = split(rl, n)
    eq = independent_rows(A, b)
    if eq is None:
        return np.zeros((0, n))
    A, b = eq
    k = n - len(A)
    out = []
    if k < 0:
        return np.zeros((0, n))
    for S in itertools.combinations(range(len(G)), k):
        M = np.vstack([A, G[list(S)]]) if k else A
        r = np.concatenate([b, h[list(S)]]) if k else b
        if M.shape[0] != n or abs(np.linalg.det(M)) < 1e-10:
            continue
        x = np.linalg.solve(M, r)
        if violation(x, rl) <= tol:
            out.append(x)
    if not out:
        return np.zeros((0, n))
    return np.unique(np.round(np.array(out), 10), axis=0)


def lp_max(c, n, rl):
    """Independent LP: max c.w; returns ('ok', value) / ('infeasible', None) / ('unbounded', None)."""
    from scipy.optimize import linprog
    G, h, A, b = split(rl, n)
    r = linprog(-np.asarray(c, float), A_ub=G if len(G) else None, b_ub=h if len(G) else None,
                A_eq=A if len(A) else None, b_eq=b if len(A) else None, bounds=[(None, None)] * n, method="highs")
    if r.status == 0:
        return "ok", -r.fun
    return ("infeasible" if r.status == 2 else "unbounded" if r.status == 3 else "other"), None


def feasible(n, rl):
    return lp_max(np.zeros(n), n, rl)[0] == "ok"


def qp_min(P, q, n, rl):
    """Exact min of w'Pw + q'w over the polyhedron by enumerating every active set."""
    G, h, A, b = split(rl, n)
    eq = independent_rows(A, b)
    if eq is None:
        return None, None
    A, b = eq
    best, arg = None, None
    for k in range(0, n - len(A) + 1):
        for S in itertools.combinations(range(len(G)), k):
            M = np.vstack([A, G[list(S)]]) if len(A) or k else np.zeros((0, n))
            r = np.concatenate([b, h[list(S)]]) if len(A) or k else np.zeros(0)
            m = len(M)
            K = np.zeros((n + m, n + m))
            K[:n, :n] = 2 * P
            K[:n, n:] = M.T
            K[n:, :n] = M
            rhs = np.concatenate([-q, r])
            x, *_ = np.linalg.lstsq(K, rhs, rcond=1e-12)
            if np.max(np.abs(K @ x - rhs), initial=0) > 1e-8 * (1 + np.max(np.abs(rhs))):
                continue
            w = x[:n]
            if violation(w, rl) > 1e-9:
                continue
            f = float(w @ P @ w + q @ w)
            if best is None or f < best:
                best, arg = f, w
    return best, arg


def simplex_lattice(m, k):
    """All m-vectors of non-negative integers summing to k, divided by k."""
    def rec(m, k):
        if m == 1:
            yield (k,)
            return
        for i in range(k + 1):
            for r in rec(m - 1, k - i):
                yield (i,) + r
    return np.array(list(rec(m, k)), float) / k


def hull_points(V, k, cap=4000):
    """Lattice of convex combinations of the vertices (feasible by construction)."""
    if len(V) == 0:
        return V
    while k > 1:
        from math import comb
        if comb(k + len(V) - 1, len(V) - 1) <= cap:
            break
        k -= 1
    return np.unique(np.round(simplex_lattice(len(V), k) @ V, 12), axis=0)


def convex_min(f, V, k=12, starts=3):
    """Smallest value of convex f found over hull(V): lattice then local polish."""
    from scipy.optimize import minimize
    pts = hull_points(V, k)
    vals = np.array([f(p) for p in pts])
    order = np.argsort(vals)
    best, arg = float(vals[order[0]]), pts[order[0]]
    # polish in barycentric coordinates
    m = len(V)
    if m > 1:
        L = simplex_lattice(m, 1)
        for s in order[:starts]:
            x0 = np.linalg.lstsq(np.vstack([V.T, np.ones(m)]), np.append(pts[s], 1), rcond=None)[0]
            x0 = np.clip(x0, 0, None); x0 = x0 / x0.sum()
            r = minimize(lambda x: f(x @ V), x0, method="SLSQP", bounds=[(0, 1)] * m,
                         constraints=[{"type": "eq", "fun": lambda x: x.sum() - 1}], options={"ftol": 1e-14, "maxiter": 300})
            x = np.clip(r.x, 0, None)
            if x.sum() > 0:
                x = x / x.sum()
                v = float(f(x @ V))
                if v < best:
                    best, arg = v, x @ V
    return best, arg


# ---------------------------------------------------------------- risk measures
def _fr(x):
    return [Fr(float(v)) for v in np.asarray(x, float).ravel()]


def cvar_exact(pnl, p, alpha):
    """Expected shortfall of loss -pnl at tail mass alpha (exact rational, tail split)."""
    order = sorted(range(len(pnl)), key=lambda i: pnl[i])
    left, acc = alpha, Fr(0)
    for i in order:
        t = min(p[i], left)
        acc += t * pnl[i]
        left -= t
        if left <= 0:
            break
    return -acc / alpha


def cvar(pnl, p, alpha):
    order = np.argsort(pnl, kind="stable")
    left, acc = alpha, 0.0
    for i in order:
        t = min(p[i], left)
        acc += t * pnl[i]
        left -= t
        if left <= 1e-15:
            break
    return -acc / alpha


def cvar_lp(R, p, alpha, n, rl, target=None, w0=None, cost=None, mean=None):
    """Independent min-CVaR LP in dual-free form (max over tail densities made explicit via epigraph)."""
    from scipy.optimize import linprog
    T = len(p)
    G, h, A, b = split(rl, n)
    mean = p @ R if mean is None else np.asarray(mean, float)
    nc = n if cost is not None else 0
    nv = n + 1 + T + nc
    c = np.concatenate([np.zeros(n), [1.0], p / alpha, cost if nc else np.zeros(0)])
    rows, rhs = [], []
    for t in range(T):
        r = np.zeros(nv); r[:n] = -R[t]; r[n] = -1; r[n + 1 + t] = -1
        rows.append(r); rhs.append(0)
    for g, y in zip(G, h):
        r = np.zeros(nv); r[:n] = g
        rows.append(r); rhs.append(y)
    if target is not None:
        r = np.zeros(nv); r[:n] = -mean
        rows.append(r); rhs.append(-target)
    for i in range(nc):
        for s in (1, -1):
            r = np.zeros(nv); r[i] = s; r[n + 1 + T + i] = -1
            rows.append(r); rhs.append(s * w0[i])
    Aeq = np.array([np.concatenate([a, np.zeros(nv - n)]) for a in A]) if len(A) else None
    bounds = [(None, None)] * n + [(None, None)] + [(0, None)] * T + [(0, None)] * nc
    r = linprog(c, A_ub=np.array(rows), b_ub=np.array(rhs), A_eq=Aeq, b_eq=b if len(A) else None, bounds=bounds, method="highs")
    if r.status == 0:
        return r.fun, r.x[:n]
    return None, None


# ---------------------------------------------------------------- conic reference
def norm_min(mu, L, lam, n, rl, w0=None, c=None, cap=None, seeds=(), iters=60, tol=1e-9, goal=None):
    """Rigorous lower bound (cutting planes) on  min -mu.w + lam*||L'w|| + c.|w-w0|  s.t. rules, ||L'w|| <= cap.

    Every cut ||L'w|| >= u.(L'w), ||u||=1 is valid, so each LP value is a lower bound of the optimum.
    Returns (lower bound, best upper bound seen) or (None, None) when infeasible.
    """
    from scipy.optimize import linprog
    G, h, A, b = split(rl, n)
    k = n if c is not None else 0
    nv = n + 1 + k
    obj = np.concatenate([-np.asarray(mu, float), [lam], c if k else np.zeros(0)])
    rows = [np.concatenate([g, np.zeros(1 + k)]) for g in G]
    rhs = list(h)
    for i in range(k):
        for s in (1, -1):
            r = np.zeros(nv); r[i] = s; r[n + 1 + i] = -1
            rows.append(r); rhs.append(s * w0[i])
    M = L.T

    def cut(w):
        z = M @ w
        nz = np.linalg.norm(z)
        if nz > 1e-14:
            r = np.zeros(nv); r[:n] = (z / nz) @ M; r[n] = -1
            rows.append(r); rhs.append(0.0)
    for s in seeds:
        cut(np.asarray(s, float))
    for i in range(n):
        e = np.zeros(n); e[i] = 1
        cut(e); cut(-e)
    Aeq = np.array([np.concatenate([a, np.zeros(1 + k)]) for a in A]) if len(A) else None
    bnd = [(None, None)] * n + [(0, cap)] + [(0, None)] * k
    low, up = -np.inf, np.inf
    for _ in range(iters):
        r = linprog(obj, A_ub=np.array(rows), b_ub=np.array(rhs), A_eq=Aeq, b_eq=b if len(A) else None, bounds=bnd, method="highs")
        if r.status == 2:
            return None, None
        if r.status != 0:
            return -np.inf, np.inf
        low = max(low, r.fun)
        w = r.x[:n]
        nz = np.linalg.norm(M @ w)
        if cap is None or nz <= cap:
            up = min(up, float(-np.dot(mu, w) + lam * nz + (np.dot(c, np.abs(w - w0)) if k else 0)))
        if up - low <= tol or nz - r.x[n] <= tol or (goal is not None and low >= goal):
            break
        cut(w)
    return low, up


def rrp_value(x, S, lam, budgets):
    """Documented relaxed risk parity objective psi - gamma at portfolio x."""
    n = len(x)
    b = np.full(n, 1.0 / n) if budgets is None else np.asarray(budgets, float)
    z = S @ x
    psi = np.sqrt(max(x @ z, 0) / n + lam * float(np.sum(np.diag(S) * x * x)))
    gam = np.sqrt(max(float(np.min(np.clip(x, 0, None) * np.clip(z, 0, None) / (n * b))), 0))
    return float(psi - gam)


def rrp_bound(S, lam, budgets, rl, seeds=(), goal=None, iters=80):
    """Rigorous lower bound of the relaxed risk parity optimum by cutting planes (rl must contain x>=0 and Sx>=0)."""
    from scipy.optimize import linprog
    n = len(S)
    b = np.full(n, 1.0 / n) if budgets is None else np.asarray(budgets, float)
    G, h, A, be = split(rl, n)
    w, V = np.linalg.eigh(S)
    L = V * np.sqrt(np.clip(w, 0, None))
    M = np.vstack([L.T / np.sqrt(n), np.sqrt(lam) * np.diag(np.sqrt(np.diag(S)))])
    nv = n + 2
    obj = np.zeros(nv); obj[n] = 1; obj[n + 1] = -1
    rows = [np.concatenate([g, [0, 0]]) for g in G]
    rhs = list(h)

    def cut(x):
        z = M @ x
        nz = np.linalg.norm(z)
        if nz > 1e-14:
            r = np.zeros(nv); r[:n] = (z / nz) @ M; r[n] = -1
            rows.append(r); rhs.append(0.0)
        zeta = S @ x
        for i in range(n):
            s = np.sqrt(max(zeta[i], 1e-12) / max(x[i], 1e-9))
            s = min(max(s, 1e-6), 1e6)
            # gamma*sqrt(n b_i) <= sqrt(x_i zeta_i) <= (s x_i + zeta_i/s)/2
            r = np.zeros(nv)
            r[n + 1] = np.sqrt(n * b[i])
            r[:n] -= S[i] / (2 * s)
            r[i] -= s / 2
            rows.append(r); rhs.append(0.0)
    for s in seeds:
        cut(np.asarray(s, float))
    cut(np.full(n, 1.0 / n))
    Aeq = np.array([np.concatenate([a, [0, 0]]) for a in A]) if len(A) else None
    bnd = [(None, None)] * n + [(0, None), (0, None)]
    low = -np.inf
    best = np.inf
    for _ in range(iters):
        r = linprog(obj, A_ub=np.array(rows), b_ub=np.array(rhs), A_eq=Aeq, b_eq=be if len(A) else None, bounds=bnd, method="highs")
        if r.status == 2:
            return None
        if r.status != 0:
            return -np.inf
        low = max(low, r.fun)
        if goal is not None and low >= goal:
            break
        x = r.x[:n]
        best = min(best, rrp_value(x, S, lam, budgets))
        if best - low < 1e-8:
            break
        cut(x)
        if len(seeds):
            cut(0.5 * (x + np.asarray(seeds[0])))
    return low


# ---------------------------------------------------------------- entropy pooling
def ep_status(A, b, G=None, h=None):
    """'interior' (a strictly positive probability vector satisfies all views), 'boundary', 'infeasible'
    (violating every vector by > 2e-3 of the row scale) or 'marginal'.  All rows as given (A includes the total)."""
    from scipy.optimize import linprog
    S = A.shape[1]
    k = 0 if G is None else len(G)
    c = np.zeros(S + 1)
    c[-1] = -1
    sc = np.maximum(np.abs(A).max(1), 1e-12)
    An, bn = A / sc[:, None], b / sc
    Au, bu = [np.hstack([-np.eye(S), np.ones((S, 1))])], [np.zeros(S)]
    if k:
        sg = np.maximum(np.abs(G).max(1), 1e-12)
        Gn, hn = G / sg[:, None], h / sg
        Au.append(np.hstack([Gn, np.zeros((k, 1))]))
        bu.append(hn)
    r = linprog(c, A_ub=np.vstack(Au), b_ub=np.concatenate(bu), A_eq=np.hstack([An, np.zeros((len(A), 1))]), b_eq=bn,
                bounds=[(0, None)] * S + [(None, 1)], method="highs")
    if r.status == 0:
        return "interior" if -r.fun > 1e-6 else "boundary"
    # smallest possible largest violation
    e = np.ones((len(A), 1))
    Au, bu = [np.hstack([An, -e]), np.hstack([-An, -e])], [bn, -bn]
    if k:
        Au.append(np.hstack([Gn, -np.ones((k, 1))]))
        bu.append(hn)
    c = np.zeros(S + 1)
    c[-1] = 1
    r = linprog(c, A_ub=np.vstack(Au), b_ub=np.concatenate(bu), A_eq=np.hstack([np.ones((1, S)), [[0.0]]]), b_eq=[1.0],
                bounds=[(0, None)] * (S + 1), method="highs")
    return "infeasible" if r.status != 0 or r.fun > 2e-3 else "marginal"


def ep_equal(p, A, b):
    """Minimum relative entropy to p subject to A q = b (Newton on the dual in an orthonormal row basis)."""
    sc = np.maximum(np.abs(A).max(1), 1e-300)
    An, bn = A / sc[:, None], b / sc
    _, sv, Vt = np.linalg.svd(An, full_matrices=False)
    B = Vt[:int((sv > 1e-9 * sv[0]).sum())]
    q0 = np.linalg.lstsq(An, bn, rcond=None)[0]
    if np.abs(An @ q0 - bn).max() > 1e-9:
        return None
    c = B @ q0
    lam = np.zeros(len(B))
    for _ in range(400):
        q = p * np.exp(np.clip(-1 - B.T @ lam, -700, 600))
        g = c - B @ q
        if np.abs(g).max() < 1e-14:
            break
        try:
            d = -np.linalg.solve((B * q) @ B.T, g)
        except np.linalg.LinAlgError:
            return None
        f0, sl, t = q.sum() + c @ lam, g @ d, 1.0
        while abs(sl) > 1e-13 and t > 1e-12:
            ln = lam + t * d
            if np.sum(p * np.exp(np.clip(-1 - B.T @ ln, -700, 600))) + c @ ln <= f0 + 1e-4 * t * sl + 1e-15 * (1 + abs(f0)):
                break
            t /= 2
        if np.abs(t * d).max() <= 1e-15 * (1 + np.abs(lam).max()):
            break
        lam = lam + t * d
    q = p * np.exp(np.clip(-1 - B.T @ lam, -700, 600))
    return q if np.abs(B @ q - c).max() < 1e-9 else None


def kl(q, p):
    q, p = np.asarray(q, float).ravel(), np.asarray(p, float).ravel()
    m = q > 0
    return float(np.sum(q[m] * np.log(q[m] / p[m])))


def ep_solve(p, A, b, G=None, h=None):
    """Exact minimiser of KL(q||p) s.t. Aq=b, Gq<=h by enumerating all active sets of the inequalities."""
    k = 0 if G is None else len(G)
    best = None
    for n in range(k + 1):
        for sub in itertools.combinations(range(k), n):
            q = ep_equal(p, np.vstack([A] + [G[[i]] for i in sub]), np.concatenate([b] + [h[[i]] for i in sub]))
            if q is None or (k and ((G @ q - h) / np.maximum(np.abs(G).max(1), 1e-12)).max() > 1e-8):
                continue
            v = kl(q, p)
            if best is None or v < best[0]:
                best = (v, q)
    return None if best is None else best[1]
