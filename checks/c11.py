"""C11: optimised discrete allocation against brute force; greedy leaves no useful cash."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc import ref
from checks.alloc_common import NM, brute
from checks.c10 import SHORT
from pyvallocation.discrete_allocation import DiscreteAllocationInput, allocate_greedy, allocate_mip, discretize_weights

LEVEL = "model_checking"
RULE = "case = (prices, lots, funds); all target weights and penalties explored inside against all whole-lot portfolios"
ASSUMPTIONS = ["objective compared to 2e-6 of the funds (HiGHS feasibility tolerance)"]
PRICES = {1: [[2.5], [0.7], [33.33]],
          2: [[1.0, 1.0], [2.5, 7.0], [3.1, 33.33], [10.0, 0.3], [99.99, 250.0], [37.0, 41.0], [1000.0, 13.0]],
          3: [[1.0, 2.0, 3.0], [2.5, 7.0, 4.1], [99.99, 33.33, 10.01], [250.0, 40.0, 17.0], [5.7, 5.3, 5.9]]}
LOTS = {1: [[1], [5]], 2: [[1, 1], [1, 10], [5, 2]], 3: [[1, 1, 1], [10, 1, 3]]}
FUNDS = [5.0, 10.0, 99.99, 100.0, 250.0, 1000.0]


def targets(n, k):
    out = [np.array(x) for x in ref.simplex_lattice(n, k)]
    return out + [np.array([0.413, 0.297, 0.29][:n]), np.array([1 / 3] * n), np.array([3.0, 2.0, 2.0][:n])]


def gen(tier):
    for n in (1, 2, 3):
        for pi in range(len(PRICES[n])):
            for li in range(len(LOTS[n])):
                for total in FUNDS + ([500.0, 777.77, 2000.0] if tier == "thorough" else []):
                    yield [n, pi, li, total, 4 if tier == "quick" or n == 3 else 8]


def run(case, ctx):
    n, pi, li, total, k = case
    price, lot = PRICES[n][pi], LOTS[n][li]
    cost = [a * b for a, b in zip(price, lot)]
    names = NM[:n]
    for w in targets(n, k):
        wn = w / w.sum()
        keep = [i for i in range(n) if w[i] > 1e-8]
        tgt = [wn[i] * total for i in keep]
        for pen, mx in ((1.0, None), (0.0, None), (0.25, None), (3.0, None), (1.0, 0.3 * total), (0.0, 0.05 * total), (1.0, 1e-3), (1.0, 0.0)):
            if mx == 0.0 and not all(float(x).is_integer() for x in cost + [total]):
                continue
            b = brute(tgt, [cost[i] for i in keep], total, pen, mx)
            if b is None:
                ctx.out("too large to enumerate")
                continue
            ctx.state()
            ctx.step()
            what = f"{case} w={w.tolist()} cash_penalty={pen} max_cash={mx}"
            kw = {} if (pen == 1.0 and mx is None) else dict(cash_penalty=pen, max_cash=mx)
            call = lambda: discretize_weights(dict(zip(names, w)), pd.Series(price, index=names), total, method="milp", lot_sizes=dict(zip(names, lot)), **kw)
            if math.isinf(b):
                ctx.raises(call, Exception, f"{what}: no affordable portfolio")
                ctx.out("unattainable")
                continue
            try:
                r = call()
            except Exception as exc:
                ctx.refused(exc, what, soft="status 4" in str(exc))
                continue
            val = [r.shares.get(names[i], 0) * price[i] for i in keep]
            cash = total - math.fsum(val)
            obj = math.fsum(abs(a - t) for a, t in zip(val, tgt)) + pen * cash
            ctx.check(cash >= -1e-9 * total and (mx is None or cash <= mx + 2e-6 * total), f"{what}: cash {cash}")
            ctx.check(obj <= b + 2e-6 * total, lambda: f"{what}: deviation {obj} of {r.shares} above the optimum {b}")
            ctx.out("optimal")
        # greedy: no affordable lot of an asset still short of its target
        for mode in ("none", "auto", "milp"):
            ctx.step()
            r = discretize_weights(dict(zip(names, w)), pd.Series(price, index=names), total, method="greedy", lot_sizes=dict(zip(names, lot)), fallback_mode=mode)
            cash = total - math.fsum(r.shares.get(names[i], 0) * price[i] for i in keep)
            for i in keep:
                gap = wn[i] * total - r.shares.get(names[i], 0) * price[i]
                ctx.check(not (gap > 1e-6 * total and cash >= cost[i] + 1e-6 * total),
                          lambda: f"{case} w={w.tolist()} greedy/{mode}: cash {cash} buys a lot ({cost[i]}) of {names[i]} still short by {gap}: {r.shares}")
        ctx.state()


def gen_short(tier):
    for n in (2, 3):
        for wi in range(len(SHORT[n])):
            for pi in range(len(PRICES[n])):
                for li in range(len(LOTS[n])):
                    for total in (10.0, 100.0, 250.0):
                        yield [n, wi, pi, li, total]


def run_short(case, ctx):
    n, wi, pi, li, total = case
    w = np.array(SHORT[n][wi]); price = PRICES[n][pi]; lot = LOTS[n][li]
    cost = [a * b for a, b in zip(price, lot)]
    tgt = w / w.sum() * total
    for pen in (1.0, 0.0, 0.25):
        b = brute(tgt, cost, total, pen, None, short=[x < 0 for x in w], cap=3000000)
        if b is None:
            ctx.out("too large to enumerate")
            continue
        for method in ("milp", "greedy"):
            kw = {} if pen == 1.0 else ({"cash_penalty": pen} if method == "milp" else {"fallback_kwargs": {"cash_penalty": pen}})
            what = f"{case} w={w.tolist()} {method} cash_penalty={pen}"
            ctx.state()
            ctx.step()
            try:
                r = discretize_weights(dict(zip(NM, w)), dict(zip(NM, price)), total, method=method, lot_sizes=dict(zip(NM, lot)), **kw)
            except Exception as exc:
                ctx.refused(exc, what, soft="status 4" in str(exc))
                continue
            val = [r.shares.get(NM[i], 0) * price[i] for i in range(n)]
            cash = total - math.fsum(val)
            obj = math.fsum(abs(a - t) for a, t in zip(val, tgt)) + pen * cash
            ctx.check(cash >= -1e-9 * total, f"{what}: cash {cash}")
            ctx.check(obj <= b + 4e-6 * total, lambda: f"{what}: deviation {obj} of {r.shares} above the optimum {b}")
            ctx.out("short")


def gen_big(tier):
    """Large counts: relative optimality gaps of the solver matter here; two assets, exact 1-D search."""
    for total in (1e4, 1e5) + ((1e6,) if tier == "thorough" else ()):
        for price in ([37.0, 41.0], [99.99, 250.0], [123.45, 67.89], [17.3, 23.9], [500.0, 333.3]):
            for lot in ([1, 1], [10, 3]):
                for w in ([0.5, 0.5], [0.413, 0.587], [0.9, 0.1], [1 / 3, 2 / 3]):
                    yield [total, price, lot, w]


def run_big(case, ctx):
    total, price, lot, w = case
    cost = [a * b for a, b in zip(price, lot)]
    tgt = [x * total for x in w]
    X = np.arange(0, int(total // cost[0]) + 1, dtype=float)
    best = math.inf
    room = total - X * cost[0]
    for y in (np.floor(np.maximum(room, 0) / cost[1]), np.floor(tgt[1] / cost[1]) + 0 * X, np.ceil(tgt[1] / cost[1]) + 0 * X):
        cash = room - y * cost[1]
        o = np.abs(X * cost[0] - tgt[0]) + np.abs(y * cost[1] - tgt[1]) + cash
        best = min(best, float(o[cash >= -1e-9].min(initial=math.inf)))
    ctx.state()
    ctx.step()
    try:
        r = discretize_weights(dict(zip(NM, w)), dict(zip(NM, price)), total, method="milp", lot_sizes=dict(zip(NM, lot)))
    except RuntimeError as exc:
        ctx.refused(exc, str(case), soft="status 4" in str(exc))
        return
    val = [r.shares.get(NM[i], 0) * price[i] for i in range(2)]
    cash = total - sum(val)
    obj = sum(abs(a - t) for a, t in zip(val, tgt)) + cash
    ctx.check(obj <= best + 2e-6 * total ** 0.5 + 1e-5, lambda: f"{case}: deviation {obj} of {r.shares} above the optimum {best}")
    ctx.out("big")


def gen_fallback(tier):
    for n in (2, 3):
        for pi in range(len(PRICES[n])):
            for li in range(len(LOTS[n])):
                yield [n, pi, li]


def run_fallback(case, ctx):
    """A greedy pass cut short hands over to the optimiser as its mode says; method names are interchangeable."""
    n, pi, li = case
    price, lot = PRICES[n][pi], LOTS[n][li]
    cost = [a * b for a, b in zip(price, lot)]
    names = NM[:n]
    for w in targets(n, 3)[:8]:
        for total in (53.7, 400.0):
            wn = w / w.sum()
            keep = [i for i in range(n) if w[i] > 1e-8]
            call = lambda method="greedy", **kw: discretize_weights(dict(zip(names, w)), dict(zip(names, price)), total, method=method, lot_sizes=dict(zip(names, lot)), **kw)
            obj = lambda r: r.tracking_error * total + r.leftover_cash
            what = f"{case} w={w.tolist()} funds={total}"
            ctx.state()
            try:
                best = call("milp")
            except RuntimeError as exc:
                ctx.refused(exc, what, soft="status 4" in str(exc))  # HiGHS solve error
                continue
            greedy = call(fallback_mode="none")
            for alias in ("MIP", "integer", "lp", "mip", "Milp"):
                ctx.step()
                ctx.check(call(alias).shares == best.shares, f"{what}: method {alias}")
            for alias in ("rounddown", "Greedy"):
                ctx.step()
                ctx.check(call(alias, fallback_mode="none").shares == greedy.shares, f"{what}: method {alias}")
            for mode in ("auto", "milp", "MILP"):
                ctx.step()
                try:
                    r = call(max_iterations=0, fallback_mode=mode)
                except RuntimeError as exc:
                    ctx.refused(exc, what, soft="status 4" in str(exc))
                    continue
                short = any(wn[i] * total > r.shares.get(names[i], 0) * price[i] + 1e-6 * total and r.leftover_cash >= cost[i] for i in keep)
                ctx.check(not short or obj(r) <= obj(best) + 2e-6 * total, f"{what}: no iterations, fallback {mode}: {r.shares} instead of the optimum {best.shares}")
            floor = call(max_iterations=0, fallback_mode="none")
            room = any(floor.leftover_cash >= cost[i] for i in keep)
            capped = dict(max_iterations=0, fallback_kwargs=dict(max_cash=-1.0))
            if room:
                # the optimiser cannot succeed: the mode that insists on it fails, the other keeps the greedy result
                ctx.raises(lambda: call(fallback_mode="milp", **capped), Exception, f"{what}: failing fallback in mode milp")
                r = call(fallback_mode="auto", **capped)
                ctx.check(r.shares == floor.shares, f"{what}: failing fallback in mode auto gives {r.shares} instead of {floor.shares}")
            ctx.out("room" if room else "no room")


FAMILIES = [
    Family("long", gen, run, "n<=3, prices x lots x funds x all lattice targets x cash penalties and caps, against every affordable whole-lot portfolio; greedy in three fallback modes"),
    Family("short", gen_short, run_short, "long-short targets against enumeration"),
    Family("fallback", gen_fallback, run_fallback, "a greedy pass without iterations under every fallback mode, with attainable and unattainable optimiser options; every method name"),
    Family("big", gen_big, run_big, "two assets, large share counts, exact search"),
]
