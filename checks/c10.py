"""C10: discrete allocations never overspend and account for every unit."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Family
from mc import ref
from checks.alloc_common import NM
from pyvallocation.discrete_allocation import DiscreteAllocationInput, allocate_greedy, allocate_mip, discretize_weights
from pyvallocation.portfolioapi import PortfolioFrontier

LEVEL = "model_checking"
RULE = "case = one (universe size, price vector, lot vector) point; all target weights, funds and algorithms explored inside"
ASSUMPTIONS = ["rounding tolerance 1e-9 relative to the funds"]
PRICES = {1: [[1.0], [2.5], [0.1], [33.33], [1e-3], [99999.0]],
          2: [[1.0, 1.0], [2.5, 7.0], [0.1, 33.33], [10.0, 0.3], [250.0, 99.99], [1.0, 1000.0], [1 / 3, 2 / 7]],
          3: [[1.0, 2.0, 3.0], [2.5, 7.0, 0.1], [99.99, 33.33, 10.01], [250.0, 40.0, 1.0], [0.7, 0.3, 0.9]]}
LOTS = {1: [None, [1], [5], [100]], 2: [None, [1, 10], [5, 2]], 3: [None, [10, 1, 3], [2, 2, 2]]}
FUNDS = [0.5, 1.0, 9.99, 10.0, 100.0, 1234.56, 1e6]
SHORT = {2: [[1.5, -0.5], [2.0, -1.0], [-0.25, 1.25], [1.009, -0.009]], 3: [[1.0, 0.3, -0.3], [-0.5, 0.75, 0.75], [1.5, -0.25, -0.25]]}


def gen(tier):
    for n in (1, 2, 3):
        for pi in range(len(PRICES[n])):
            for li in range(len(LOTS[n])):
                for algo in ("greedy", "greedy0", "milp"):
                    yield [n, pi, li, algo]


def weights(n, tier_k=4):
    out = [np.array(x) for x in ref.simplex_lattice(n, tier_k)]
    out += [np.array([1.0] * n) / 3, np.array([0.3, 0.2, 0.1][:n]), np.array([2.0, 1.0, 1.0][:n]), np.array([1 - 1e-6 * (n - 1)] + [1e-6] * (n - 1)), np.array([1.0] + [1e-9] * (n - 1)), np.array([50, 30, 20.0][:n]), np.array([0.413, 0.297, 0.271][:n])]
    return out


def check_result(ctx, what, res, w, price, lot, total, names):
    """Recompute every reported number from the share counts."""
    ctx.state()
    short = any(x < 0 for x in w)
    keep = [i for i in range(len(w)) if abs(w[i]) > 1e-8]
    tot = math.fsum(w[i] for i in keep)
    tw = {names[i]: w[i] / tot for i in keep}
    pr = {names[i]: price[i] for i in keep}
    lt = {names[i]: lot[i] for i in keep}
    sh = res.shares
    ctx.check(set(sh) <= set(tw), f"{what}: shares of unknown assets {sh}")
    for a, k in sh.items():
        ctx.check(isinstance(k, int) and k != 0 and k % lt[a] == 0 and (k > 0 or tw[a] < 0), f"{what}: {k} shares of {a} (lot {lt[a]})")
    cost = math.fsum(k * pr[a] for a, k in sh.items() if a in pr)
    ctx.check(abs(res.leftover_cash - (total - cost)) <= 1e-9 * max(total, 1.0), f"{what}: cash {res.leftover_cash} but funds minus cost is {total - cost}")
    ctx.check(res.leftover_cash >= 0, f"{what}: negative cash {res.leftover_cash}")
    ctx.check(total - cost >= -1e-9 * max(1.0, total), f"{what}: spent {cost} of {total}")
    aw = res.achieved_weights
    ctx.check(sorted(aw.index) == sorted(tw), f"{what}: achieved weights labelled {list(aw.index)}")
    ctx.close([aw[a] for a in tw], [sh.get(a, 0) * pr[a] / total for a in tw], 1e-9, f"{what}: achieved weights")
    te = math.fsum(abs(tw[a] - sh.get(a, 0) * pr[a] / total) for a in tw)
    ctx.close(res.tracking_error, te, 1e-9, f"{what}: tracking error")
    s = res.as_series()
    ctx.check({k: int(v) for k, v in s.items()} == sh, f"{what}: as_series {s.to_dict()} vs {sh}")
    return cost


def run(case, ctx):
    n, pi, li, algo = case
    price = PRICES[n][pi]
    lots = LOTS[n][li]
    names = NM[:n]
    lot = lots or [1] * n
    for wi, w in enumerate(weights(n)):
        for total in FUNDS:
            # labelled inputs arrive in different orders and containers
            for form in (0, 1):
                order = list(range(n)) if form == 0 else list(range(n))[::-1]
                ws = pd.Series(w, index=names) if form == 0 else {names[i]: w[i] for i in order}
                ps = pd.Series([price[i] for i in order], index=[names[i] for i in order]) if form == 0 else {**{"unused": 3.0}, **{names[i]: price[i] for i in range(n)}}
                ls = None if lots is None else ({names[i]: lots[i] for i in order} if form == 0 else pd.Series([lots[i] for i in order], index=[names[i] for i in order]))
                if form == 1 and (algo == "milp" or (wi % 3 and wi < len(weights(n)) - 1)):
                    continue
                what = f"{case} w={w.tolist()} funds={total} form={form}"
                ctx.step()
                kw = {"fallback_mode": "none"} if algo == "greedy0" else {}
                try:
                    res = discretize_weights(ws, ps, total, method="milp" if algo == "milp" else "greedy", lot_sizes=ls, **kw)
                except Exception as exc:
                    ctx.refused(exc, what, soft="status 4" in str(exc))  # HiGHS solve error
                    continue
                cost = check_result(ctx, what, res, w, price, lot, total, names)
                if form == 0 and lots is not None and n > 1 and total in (100.0, 1234.56) and wi % 3 == 1:
                    # a lot size left out is one, wherever it stands among the others
                    for out in range(n):
                        part = {names[i]: lots[i] for i in range(n) if i != out}
                        for ls2 in (part, pd.Series(dict(reversed(list(part.items()))))):
                            ctx.step()
                            try:
                                r3 = discretize_weights(ws, ps, total, method="milp" if algo == "milp" else "greedy", lot_sizes=ls2, **kw)
                            except Exception as exc:
                                ctx.refused(exc, what, soft="status 4" in str(exc))
                                continue
                            r4 = discretize_weights(ws, ps, total, method="milp" if algo == "milp" else "greedy", lot_sizes={**part, names[out]: 1}, **kw)
                            check_result(ctx, f"{what} no lot size for {names[out]}", r3, w, price, [1 if i == out else lots[i] for i in range(n)], total, names)
                            ctx.check(r3.shares == r4.shares, f"{what}: no lot size for {names[out]} gives {r3.shares}, lot size 1 gives {r4.shares}")
                            if algo == "milp":
                                break
                if form == 1 and len({round(x, 6) for x in w}) == n and wi >= len(weights(n)) - 1:
                    r2 = discretize_weights(pd.Series(w, index=names), pd.Series(price, index=names), total, method="greedy", lot_sizes=None if lots is None else dict(zip(names, lots)), **kw)
                    ctx.check(r2.shares == res.shares, f"{what}: order of labels changes the allocation {r2.shares} vs {res.shares}")
    ctx.out(algo)


def gen_short(tier):
    for n in (2, 3):
        for wi in range(len(SHORT[n])):
            for pi in range(len(PRICES[n])):
                for li in range(len(LOTS[n])):
                    yield [n, wi, pi, li]


def run_short(case, ctx):
    n, wi, pi, li = case
    names = NM[:n]
    w = np.array(SHORT[n][wi])
    lots = LOTS[n][li]
    for total in (10.0, 100.0, 1234.56, 5000.0):
        obj = {}
        for method in ("greedy", "milp"):
            what = f"{case} funds={total} {method}"
            ctx.step()
            try:
                res = discretize_weights(pd.Series(w, index=names), dict(zip(names, PRICES[n][pi])), total, method=method, lot_sizes=None if lots is None else dict(zip(names, lots)))
            except RuntimeError as exc:
                ctx.refused(exc, what, soft="status 4" in str(exc))
                continue
            check_result(ctx, what, res, w, PRICES[n][pi], lots or [1] * n, total, names)
            obj[method] = res.tracking_error * total + res.leftover_cash
        if len(obj) == 2:
            ctx.close(obj["greedy"] / total, obj["milp"] / total, 1e-7, f"{case} funds={total}: long-short targets on the greedy entry point are not the optimal allocation")
    ctx.out("short")


def gen_bad(tier):
    for method in ("greedy", "milp"):
        for bad in ("0", "-1", "nan", "inf", "-inf"):
            yield [method, "price", bad]
            yield [method, "funds", bad]
        for bad in ("0", "-1", "nan", "inf", "1.5"):
            yield [method, "lot", bad]
        for bad in ("nan", "inf", "-inf", "zero", "neg", "empty", "type", "dup"):
            yield [method, "weights", bad]
        for bad in ("missing", "empty", "type"):
            yield [method, "prices", bad]
    for bad in ("x", "", "grid"):
        yield ["greedy", "method", bad]
        yield ["greedy", "mode", bad]


def run_bad(case, ctx):
    method, what, bad = case
    names = NM[:2]
    w = pd.Series([0.5, 0.5], index=names)
    p = pd.Series([10.0, 3.0], index=names)
    lots, total, kw = None, 100.0, {}
    if what == "price":
        p = pd.Series([10.0, float(bad)], index=names)
    elif what == "funds":
        total = float(bad)
    elif what == "lot":
        lots = pd.Series([1.0, float(bad)], index=names)
    elif what == "weights":
        w = {"nan": pd.Series([0.5, math.nan], index=names), "inf": pd.Series([0.5, math.inf], index=names), "-inf": pd.Series([0.5, -math.inf], index=names),
             "zero": pd.Series([0.0, 0.0], index=names), "neg": pd.Series([-0.5, -0.5], index=names), "empty": pd.Series([], dtype=float), "type": [0.5, 0.5],
             "dup": pd.Series([0.5, 0.5], index=["zeta", "zeta"])}[bad]
    elif what == "prices":
        p = {"missing": pd.Series([10.0], index=names[:1]), "empty": {}, "type": [10.0, 3.0]}[bad]
    elif what == "method":
        method = bad
    elif what == "mode":
        kw = {"fallback_mode": bad} if bad else {"fallback_mode": "nothing"}
    ctx.state()
    ctx.raises(lambda: discretize_weights(w, p, total, method=method, lot_sizes=lots, **kw), Exception, f"invalid {case}")
    ctx.out(what)


def gen_front(tier):
    for lab in (True, False):
        for col in (-1, 0, 1, 2, 3):
            for method in ("greedy", "milp"):
                for total in (50.0, 777.0):
                    yield [lab, col, method, total]


def run_front(case, ctx):
    lab, col, method, total = case
    W = np.array([[0.2, 0.5, 1.0], [0.3, 0.5, 0.0], [0.5, 0.0, 0.0]])
    f = PortfolioFrontier(weights=W, returns=np.arange(3.0), risks=np.arange(3.0), risk_measure="x", asset_names=list(NM) if lab else None)
    names = NM if lab else ["Asset_0", "Asset_1", "Asset_2"]
    price = {names[2]: 3.0, names[0]: 7.5, names[1]: 20.0}
    ctx.step()
    call = lambda: f.as_discrete_allocation(col, price, total, method=method, lot_sizes={names[0]: 2})
    if col in (-1, 3):
        ctx.raises(call, IndexError, f"column {col}")
        return
    check_result(ctx, str(case), call(), W[:, col], [7.5, 20.0, 3.0], [2, 1, 1], total, names)
    ctx.out(method)


FAMILIES = [
    Family("long", gen, run, "n<=3: prices x lots x all lattice targets (and unnormalised ones) x 7 fund levels x algorithms x label orders and containers"),
    Family("short", gen_short, run_short, "long-short targets on both entry points"),
    Family("invalid", gen_bad, run_bad, "every kind of invalid price, lot, funds, weights, method"),
    Family("frontier", gen_front, run_front, "allocation of a frontier column"),
]
