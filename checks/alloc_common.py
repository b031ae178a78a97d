"""Shared spaces and brute-force oracle for the discrete allocation properties."""
import itertools
import math
import numpy as np

NM = ["zeta", "alpha", "mid"]


def close_zero(w):
    return abs(w) <= 1e-8


def brute(target, cost, total, pen, max_cash=None, short=(), cap=400000):
    """Smallest total absolute deviation plus penalised cash over all affordable whole-lot portfolios."""
    n = len(target)
    rng = []
    room = total + sum(max(0.0, -t) + 2 * c for t, c, s in zip(target, cost, short or [False] * n) if s)
    for t, c, s in zip(target, cost, short or [False] * n):
        hi = int(math.floor((max(room, t) + 1e-9 * total) / c)) + (1 if s else 0)
        lo = -int(math.ceil((-t) / c)) - 2 if s else 0
        if s:
            hi = 1
        rng.append((lo, max(hi, 0)))
    size = 1
    for lo, hi in rng:
        size *= hi - lo + 1
    if size > cap:
        return None
    grids = np.meshgrid(*[np.arange(lo, hi + 1) for lo, hi in rng], indexing="ij")
    X = np.stack([g.ravel() for g in grids], axis=1).astype(float)
    val = X * np.asarray(cost, float)
    cash = total - val.sum(axis=1)
    ok = cash >= -1e-12 * max(1.0, total)
    if max_cash is not None:
        ok &= cash <= max_cash + 1e-12 * max(1.0, total)
    if not ok.any():
        return math.inf
    obj = np.abs(val - np.asarray(target)).sum(axis=1) + pen * np.maximum(cash, 0)
    return float(obj[ok].min())
