"""Catalogue of optimiser entry points, driven only through the public API."""
import numpy as np
import pandas as pd
from pyvallocation import optimization as opt
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper, TransactionCosts
from pyvallocation.utils.constraints import Constraints, build_G_h_A_b
from . import data, ref

NAMES = ["zeta", "alpha", "mid", "beta"]


def mats(n, spec):
    return build_G_h_A_b(n, **spec)


def problem(n, cov, mu, scen, prob=None, scale=0.01):
    S = np.array(data.COV[n][cov], float) * scale ** 2 * 4
    m = np.array(data.MU[n][mu], float) * scale
    R = np.array(data.SCEN[n][scen], float) * scale
    T = len(R)
    p = np.full(T, 1.0 / T) if prob is None else np.asarray(prob, float)
    return S, m, R, p


def w0_of(n):
    return {2: np.array([0.75, 0.25]), 3: np.array([0.5, 0.125, 0.375]), 4: np.array([0.25, 0.125, 0.375, 0.25])}[n]


def costs_of(n, kind):
    """kind -> (initial, market impact, proportional)"""
    if kind == "none":
        return None, None, None
    w0 = w0_of(n)
    mic = np.array([0.5, 2.0, 1.0, 0.25])[:n] * 1e-4
    pc = np.array([0.002, 0.0005, 0.001, 0.004])[:n]
    if kind == "quad":
        return w0, mic, None
    if kind == "prop":
        return w0, None, pc
    if kind == "both":
        return w0, mic, pc
    raise KeyError(kind)


def tcosts(n, kind):
    w0, mic, pc = costs_of(n, kind)
    return None if w0 is None else TransactionCosts(initial_weights=w0, market_impact_costs=mic, proportional_costs=pc)


def wrapper_moments(n, S, m, labelled=True, **kw):
    if labelled:
        idx = NAMES[:n]
        return PortfolioWrapper.from_moments(pd.Series(m, index=idx), pd.DataFrame(S, index=idx, columns=idx), **kw)
    return PortfolioWrapper.from_moments(m, S, **kw)


def wrapper_scen(n, R, p, labelled=True, **kw):
    if labelled:
        return PortfolioWrapper.from_scenarios(pd.DataFrame(R, columns=NAMES[:n]), probabilities=p, **kw)
    return PortfolioWrapper.from_scenarios(R, probabilities=p, **kw)
