"""C27: plots show exactly the numbers they are given (artists read back from matplotlib)."""
import copy
import itertools
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection
import numpy as np
import pandas as pd
from mc.core import Family
from pyvallocation.portfolioapi import PortfolioFrontier
from pyvallocation import plotting as PL

LEVEL = "model_checking"
RULE = "case = one frontier set (or weight table, or set of assumptions); every option combination is drawn inside and all artists of the figure are read back and compared with the input data"
ASSUMPTIONS = ["legend wording is free as long as it carries the frontier's label", "among exactly tied columns any tied column may be highlighted",
               "a tangency marker may be selected on the displayed or on the primary risk measure, but marker and weights must describe one portfolio"]
NM = ["AA", "BB", "CC"]
LVL = [0.01, 0.02, 0.04]
HL = [(), ("min_risk",), ("max_return",), ("tangency",), ("min_risk", "max_return"), ("tangency", "min_risk", "max_return")]
WORD = {"min_risk": "Min", "max_return": "Max", "tangency": "Tangency"}


def mkf(ret, risk, measure="Volatility", alt=None, names=True, meta=None):
    M = len(ret)
    W = np.array([[0.1 + 0.13 * j, 0.55 - 0.2 * j, 0.35 + 0.07 * j] for j in range(M)]).T
    return PortfolioFrontier(weights=W, returns=np.array(ret, float), risks=np.array(risk, float), risk_measure=measure, asset_names=list(NM) if names else None,
                             metadata=meta, alternate_risks={k: np.array(v, float) for k, v in (alt or {}).items()})


def atoms():
    return [
        mkf([0.01, 0.02, 0.03], [0.1, 0.2, 0.4], alt={"CVaR": [0.3, 0.1, 0.2]}, meta=[{"lambda": 0.5, "k": None}, {"lambda": 1.5, "k": 2}, {"lambda": 1.0}]),
        mkf([0.02, 0.025], [0.15, 0.12], measure="CVaR", alt={"Volatility": [0.11, 0.22]}),
        mkf([0.03, -0.01, 0.03, 0.0], [0.2, 0.05, 0.1, 0.05], names=False),
        mkf([0.015], [0.3], alt={"CVaR": [0.05], "VaR": [0.07]}),
    ]


def snap(f):
    return (f.weights.tobytes(), f.returns.tobytes(), f.risks.tobytes(), f.risk_measure, copy.deepcopy(f.asset_names), copy.deepcopy(f.metadata), {k: v.tobytes() for k, v in f.alternate_risks.items()})


def lines_of(ax):
    return [(l.get_label(), np.column_stack([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)]), l.get_linestyle()) for l in ax.get_lines()]


def points_of(ax):
    return [(c.get_label(), np.asarray(c.get_offsets(), float).reshape(-1, 2)) for c in ax.collections if isinstance(c, PathCollection)]


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-15)


def match(ctx, what, got, want, dash=True):
    """got/want: lists of (label or None, array[, dashed]); one-to-one matching in any order."""
    left = list(got)
    for w in want:
        hit = next((g for g in left if same(g[1], w[1]) and (w[0] is None or g[0] == w[0]) and (len(w) < 3 or (g[2] == "--") == w[2])), None)
        if not ctx.check(hit is not None, lambda: f"{what}: nothing drawn for {w[0]!r} {w[1].tolist()}; drawn: {[(g[0], g[1].tolist()) for g in left][:6]}"):
            return False
        left = [g for g in left if g is not hit]
    return ctx.check(not left, lambda: f"{what}: drawn but not supplied: {[(g[0], g[1].tolist()) for g in left][:4]}")


def risk_of(f, lab):
    return f.risks if lab is None or lab == f.risk_measure else f.alternate_risks[lab]


def cols_for(f, marker, rk, rf):
    """Admissible columns of a highlight, or [] when it is undefined."""
    if marker == "min_risk":
        return [j for j in range(len(rk)) if rk[j] == rk.min()]
    if marker == "max_return":
        return [j for j in range(len(rk)) if f.returns[j] == f.returns.max()]
    ok = [j for j in range(len(rk)) if rk[j] != 0]
    if np.all(np.isclose(rk, 0)):
        return []
    s = {j: (f.returns[j] - rf) / rk[j] for j in ok}
    return [j for j in ok if s[j] >= max(s.values()) - 1e-12]


def percent(ctx, what, axis, on):
    txt = [axis.get_major_formatter()(v, 0) for v in (0.125, 0.5)]
    if on:
        ctx.check(all(t.endswith("%") and abs(float(t[:-1]) - w) < 0.51 for t, w in zip(txt, (12.5, 50.0))), lambda: f"{what}: ticks 0.125/0.5 read {txt}")
    else:
        ctx.check(not any("%" in t for t in txt), lambda: f"{what}: ticks 0.125/0.5 read {txt}")


def check_axis(ctx, what, ax, fs, labels, risk_label, overlays, hl, rf, show_points, pct=None, legend=None, recs=True):
    """One axis produced by plot_frontiers for the frontiers fs."""
    ctx.state()
    names = [l if l else (risk_label or f.risk_measure) for l, f in zip(labels, fs)]
    want_l, want_p, marks = [], [], []
    for n, f in zip(names, fs):
        rk = risk_of(f, risk_label)
        want_l.append((n, np.column_stack([rk, f.returns]), False))
        for o in overlays:
            if o == f.risk_measure or o in f.alternate_risks:
                want_l.append((None, np.column_stack([risk_of(f, o), f.returns]), True))
        if show_points:
            want_p.append((None, np.column_stack([rk, f.returns])))
    match(ctx, f"{what} curves", lines_of(ax), want_l)
    for n, f in zip(names, fs):
        rk = risk_of(f, risk_label)
        own = [l for l in ax.get_lines() if l.get_label() == n]
        for o in overlays:
            if o == f.risk_measure or o in f.alternate_risks:
                ctx.check(any(n in str(l.get_label()) and o in str(l.get_label()) and l.get_linestyle() == "--" for l in ax.get_lines()), lambda: f"{what}: no curve labelled as overlay {o} of {n}: {[l.get_label() for l in ax.get_lines()]}")
        del own
        for m in hl:
            c = cols_for(f, m, rk, rf)
            if c:
                marks.append((n, f, m, c, rk))
    pts = points_of(ax)
    for w in want_p:   # node clouds carry no legend entry
        hit = next((g for g in pts if same(g[1], w[1]) and str(g[0]).startswith("_")), None)
        if ctx.check(hit is not None, lambda: f"{what}: nodes {w[1].tolist()} not drawn"):
            pts = [g for g in pts if g is not hit]
    for n, f, m, c, rk in marks:
        hit = next((g for g in pts if g[1].shape == (1, 2) and str(g[0]).startswith(n) and WORD[m] in str(g[0])[len(n):] and any(same(g[1], np.array([[rk[j], f.returns[j]]])) for j in c)), None)
        if ctx.check(hit is not None, lambda: f"{what}: no {m} marker of {n!r} at {[(rk[j], f.returns[j]) for j in c]}; drawn {[(g[0], g[1].tolist()) for g in pts][:6]}"):
            pts = [g for g in pts if g is not hit]
    ctx.check(not pts, lambda: f"{what}: unexpected markers {[(g[0], g[1].tolist()) for g in pts][:4]}")
    if recs:
        rec = list(getattr(ax, "_frontier_highlights", []))
        ctx.check(len(rec) == len(marks), lambda: f"{what}: {len(rec)} highlight records for {len(marks)} markers")
        for r, (n, f, m, c, rk) in zip(rec, marks):
            j = r["index"]
            if ctx.check(j in c and r["frontier"] == n, lambda: f"{what}: record {r['type']}/{r['frontier']} column {j}, expected {m}/{n} {c}"):
                ctx.check(r["risk"] == rk[j] and r["return"] == f.returns[j] and r["risk_measure"] == (risk_label or f.risk_measure), lambda: f"{what}: record {r} is not column {j}")
                ctx.check(np.array_equal(np.asarray(r["weights"], float), f.weights[:, j]) and list(r["weights"].index) == (f.asset_names or list(range(3))), lambda: f"{what}: record weights {dict(r['weights'])} not column {j}")
                ctx.check(r["metadata"] == (f.metadata[j] if f.metadata else None), lambda: f"{what}: record metadata {r['metadata']}")
    ms = {f.risk_measure for f in fs}
    if risk_label or len(ms) == 1:
        ctx.check(ax.get_xlabel() == (risk_label or next(iter(ms))), lambda: f"{what}: x label {ax.get_xlabel()!r}")
    else:
        ctx.check(ax.get_xlabel() not in ms, lambda: f"{what}: x label {ax.get_xlabel()!r} for measures {ms}")
    if pct is not None:
        percent(ctx, f"{what} x", ax.xaxis, pct); percent(ctx, f"{what} y", ax.yaxis, pct)
    if legend is not None:
        ctx.check((ax.get_legend() is not None) == legend, f"{what}: legend shown {ax.get_legend() is not None}, asked {legend}")
        if legend:
            txt = [t.get_text() for t in ax.get_legend().get_texts()]
            ctx.check(all(n in txt for n in names) and len(txt) == len(ax.get_lines()) + len(marks), lambda: f"{what}: legend {txt} for curves {names}")


# ---------------------------------------------------------------- patterns
def gen_pat(tier):
    for M in (1, 2, 3):
        for a in itertools.product(range(3), repeat=M):
            for b in itertools.product(range(3), repeat=M):
                yield [list(a), list(b), 0 if tier == "quick" and M == 3 else 1]


def run_pat(case, ctx):
    a, b, full = case
    M = len(a)
    zero = 0.0 if sum(a) % 2 else 0.05
    ret = [LVL[i] for i in a]
    risk = [[zero, 0.1, 0.3][i] for i in b]
    alt = [[0.2, zero, 0.1][(i + j) % 3] for j, i in enumerate(b)]
    f = mkf(ret, risk, alt={"CVaR": alt})
    before = snap(f)
    fig, ax = plt.subplots()
    try:
        for lab in (None, "CVaR", "Volatility") if full else (None, "CVaR"):
            for rf in (0.0, 0.015, 0.05, -0.01) if full else (0.015,):
                ax.cla()
                what = f"{case} risk_label={lab} rf={rf}"
                r = PL.plot_frontiers(f, ax=ax, highlight=("min_risk", "max_return", "tangency"), risk_free_rate=rf, risk_label=lab, legend=False)
                ctx.step()
                ctx.check(r is ax, f"{what}: returned another axis")
                check_axis(ctx, what, ax, [f], [None], lab, (), ("min_risk", "max_return", "tangency"), rf, False)
        ctx.raises(lambda: PL.plot_frontiers(f, ax=ax, risk_label="nope"), Exception, f"{case}: unknown risk label drawn")
        ctx.raises(lambda: PL.plot_frontiers(f, ax=ax, highlight=("tangency",)), Exception, f"{case}: tangency without rate")
        ctx.check(snap(f) == before, f"{case}: plotting changed the frontier")
    finally:
        plt.close("all")
    ctx.out(f"M={M}")


# ---------------------------------------------------------------- sets
def gen_sets(tier):
    for r in (1, 2, 3):
        for s in itertools.product(range(4), repeat=r):
            if r == 3 and tier == "quick" and (len(set(s)) == 2 or s[0] > s[-1]):
                continue
            yield list(s)


def run_sets(case, ctx):
    A = atoms()
    fs = [A[i] for i in case]
    before = [snap(f) for f in A]
    fig, ax = plt.subplots()
    try:
        forms = ["none", "list", "dup", "map", "gap"]
        if len(fs) == 1:
            forms.append("bare")
        k = 0
        for form in forms:
            labels = {"none": [None] * len(fs), "bare": [None], "list": [f"F{i}" for i in range(len(fs))], "dup": ["same"] * len(fs), "map": [f"M{i}" for i in range(len(fs))], "gap": ["x"] + [None] * (len(fs) - 1)}[form]
            for lab in (None, "CVaR", "Volatility"):
                ok = all(lab is None or lab == f.risk_measure or lab in f.alternate_risks for f in fs)
                for ov in ((), ("CVaR",), ("VaR", "Volatility"), ("nope",)):
                    k += 1
                    hl = HL[k % len(HL)]
                    show, pct, leg = bool(k & 1), bool(k & 2), bool((k // 3) & 1)
                    arg = fs[0] if form == "bare" else ({l: f for l, f in zip(labels, fs)} if form == "map" else (fs if k % 2 else tuple(fs)))
                    kw = dict(highlight=hl, risk_free_rate=0.005, legend=leg, show_points=show, percent_axes=pct, overlay_risk_labels=ov, risk_label=lab,
                              line_kwargs={"linewidth": 1.0}, marker_kwargs={"min_risk": {"marker": "s"}}, scatter_kwargs={"alpha": 0.9})
                    if form in ("list", "dup", "gap"):
                        kw["labels"] = labels
                    keep = copy.deepcopy(kw)
                    what = f"{case} labels={form} risk_label={lab} overlay={ov} highlight={hl}"
                    ax.cla()
                    ctx.step()
                    if not ok:
                        ctx.raises(lambda: PL.plot_frontiers(arg, ax=ax, **kw), Exception, f"{what}: missing risk measure drawn")
                        continue
                    PL.plot_frontiers(arg, ax=ax, **kw)
                    check_axis(ctx, what, ax, fs, labels, lab, ov, hl, 0.005, show, pct, leg)
                    ctx.check(kw == keep, f"{what}: options changed by plotting")
                    ctx.check(len(plt.get_fignums()) == 1, f"{what}: extra figures left open")
        ctx.raises(lambda: PL.plot_frontiers(fs, labels=["a"] * (len(fs) + 1)), Exception, f"{case}: too many labels")
        ctx.raises(lambda: PL.plot_frontiers(fs + ["x"]), Exception, f"{case}: not a frontier")
        ctx.check([snap(f) for f in A] == before, f"{case}: plotting changed the frontiers")
    finally:
        plt.close("all")
    ctx.out(f"{len(fs)} frontiers")


# ---------------------------------------------------------------- grid
def gen_grid(tier):
    for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in itertools.product(range(4), repeat=r):
            if r == 3 and tier == "quick" and s not in (tuple(sorted(s)), tuple(sorted(s))[::-1]):
                continue
            if r == 4 and s != tuple(sorted(s)):
                continue
            yield list(s)


def run_grid(case, ctx):
    A = atoms()
    fs = [A[i] for i in case]
    before = [snap(f) for f in A]
    k = sum(case)
    for form in ("none", "list", "dup", "map"):
        labels = {"none": [None] * len(fs), "list": [f"F{i}" for i in range(len(fs))], "dup": ["same"] * len(fs), "map": [f"M{i}" for i in range(len(fs))]}[form]
        for by in ("default", "one", "each", "parity"):
            k += 1
            policy = ("auto", "all", "each", "none")[k % 4]
            cols = (None, 1, 2)[k % 3]
            fn = {"default": None, "one": lambda l, f: "all", "each": lambda l, f: id(f), "parity": lambda l, f: f.returns.size % 2}[by]
            key = fn or (lambda l, f: f.risk_measure)
            groups = {}
            for l, f in zip(labels, fs):
                groups.setdefault(str(key(l, f)), []).append((l, f))
            arg = {l: f for l, f in zip(labels, fs)} if form == "map" else list(fs)
            kw = {"labels": labels} if form in ("list", "dup") else {}
            what = f"{case} grid labels={form} by={by} cols={cols} legend={policy}"
            hl = HL[k % len(HL)]
            try:
                fig, axes = PL.plot_frontiers_grid(arg, by=fn, cols=cols, highlight=hl, risk_free_rate=0.005, legend_policy=policy, **kw)
                ctx.step()
                axes = list(axes)
                shown = [a for a in axes if a.axison]
                ctx.check(len(shown) == len(groups) and all(a.figure is fig for a in axes), lambda: f"{what}: {len(shown)} panels for groups {list(groups)}")
                for ax, (g, members) in zip(axes, groups.items()):
                    ctx.check(ax.get_title() == g, lambda: f"{what}: panel titled {ax.get_title()!r}, group {g!r}")
                    leg = {"auto": len(groups) == 1, "all": True, "each": True, "none": False}[policy]
                    # panels always name their curves: the label, else the risk measure
                    check_axis(ctx, f"{what} panel {g}", ax, [f for _, f in members], [l or f.risk_measure for l, f in members], None, (), hl, 0.005, False, None, leg)
                for ax in axes[len(groups):]:
                    ctx.check(not ax.get_lines() and not ax.collections, f"{what}: spare panel not empty")
            finally:
                plt.close("all")
    ctx.raises(lambda: PL.plot_frontiers_grid(fs, legend_policy="sometimes"), Exception, f"{case}: unknown legend policy")
    ctx.raises(lambda: PL.plot_frontiers_grid([]), Exception, f"{case}: empty grid")
    plt.close("all")
    ctx.check([snap(f) for f in A] == before, f"{case}: plotting changed the frontiers")
    ctx.out(f"{len(fs)} frontiers")


# ---------------------------------------------------------------- weights
def gen_w(tier):
    al = [-0.2, 0.0, 0.3, 0.7]
    for n in (1, 2, 3):
        for v in itertools.product(range(4), repeat=n):
            for m in (0, 1, 2):
                if tier == "quick" and n == 3 and m == 1:
                    continue
                yield [[al[i] for i in v], m]


def bars(ax, kind):
    """{series label: {category text: (length, start)}} read from the bar containers and tick labels."""
    axis = ax.yaxis if kind == "barh" else ax.xaxis
    pos = [round(float(t), 6) for t in (ax.get_yticks() if kind == "barh" else ax.get_xticks())]
    txt = [t.get_text() for t in axis.get_majorticklabels()]
    res = []
    for c in ax.containers:
        d = {}
        for p in c.patches:
            mid = (p.get_y() + p.get_height() / 2) if kind == "barh" else (p.get_x() + p.get_width() / 2)
            i = int(np.argmin([abs(q - mid) for q in pos]))
            d[txt[i]] = (p.get_width(), p.get_x()) if kind == "barh" else (p.get_height(), p.get_y())
        res.append((c.get_label(), d, len(c.patches)))
    return res


def run_w(case, ctx):
    v, m = case
    n = len(v)
    idx = NM[:n][::-1]
    if m == 0:
        obj = pd.Series(v, index=idx, name="p")
    else:
        obj = pd.DataFrame({f"p{c}": np.roll(v, c) * (1 if c == 0 else 0.5) for c in range(m)}, index=idx)
    keep = obj.copy()
    cols = [("p", obj)] if m == 0 else [(c, obj[c]) for c in obj.columns]
    top = (obj if m == 0 else obj.max(axis=1))
    fig, ax = plt.subplots()
    try:
        for kind in ("barh", "bar"):
            for tn in (None, 1, 2, 5):
                for stacked in ((False,) if m == 0 else (False, True)):
                    pct = (tn != 2)
                    what = f"{case} {kind} top_n={tn} stacked={stacked}"
                    ax.cla()
                    r = PL.plot_weights(obj, ax=ax, kind=kind, top_n=tn, stacked=stacked, percent_axes=pct, title="T")
                    ctx.step(); ctx.state()
                    ctx.check(r is ax and ax.get_title() == "T", f"{what}: title {ax.get_title()!r}")
                    got = bars(ax, kind)
                    if not ctx.check(len(got) == len(cols), lambda: f"{what}: {len(got)} bar series for {len(cols)} portfolios"):
                        continue
                    kept = set(got[0][1])
                    want_n = n if tn is None else min(n, tn)
                    ctx.check(len(kept) == want_n and kept <= set(idx), lambda: f"{what}: bars for {kept}")
                    drop = [top[i] for i in idx if i not in kept]
                    if kept <= set(idx) and drop:
                        ctx.check(max(drop) <= min(top[i] for i in kept) + 1e-15, lambda: f"{what}: kept {kept} of {dict(top)}")
                    base = {i: [0.0, 0.0] for i in idx}
                    for (lab, d, cnt), (c, s) in zip(got, cols):
                        ctx.check(cnt == want_n and set(d) == kept, lambda: f"{what}: {cnt} bars {set(d)} for {c}")
                        ctx.check(m == 0 or lab == c, lambda: f"{what}: bars labelled {lab!r} for {c!r}")
                        for i in kept & set(idx):
                            ctx.check(i in d and abs(d[i][0] - s[i]) < 1e-12, lambda: f"{what}: bar of {i} in {c} has length {d.get(i)}, weight {s[i]}")
                            start = base[i][int(s[i] < 0)] if stacked else 0.0
                            ctx.check(i in d and (s[i] == 0 or abs(d[i][1] - start) < 1e-12), lambda: f"{what}: bar of {i} in {c} starts at {d.get(i)}, expected {start}")
                            base[i][int(s[i] < 0)] += s[i]
                    percent(ctx, what, ax.xaxis if kind == "barh" else ax.yaxis, pct)
                    ctx.check(obj.equals(keep), f"{what}: weights changed by plotting")
        ctx.raises(lambda: PL.plot_weights(np.array(v), ax=ax), Exception, f"{case}: bare array accepted")
    finally:
        plt.close("all")
    ctx.out("series" if m == 0 else "frame")


# ---------------------------------------------------------------- reports
SEL = [("min_risk", {}), ("minimum_risk", {}), ("max_return", {}), ("maximum_return", {}), ("tangency", {"risk_free_rate": 0.005}), ("tangency", {}), ("max_sharpe", {"risk_free_rate": 0.005}), ("sharpe", {}),
       ("risk_target", {"max_risk": 0.21}), ("max_return_subject_to_risk", {"max_risk": 0.21}), ("return_target", {"min_return": 0.012}), ("min_risk_subject_to_return", {"min_return": 0.012}),
       ("risk_percentile", {"percentile": 0.5}), ("risk_pct", {"percentile": 100}), ("percentile", {"percentile": 0}), ("risk_match", {"target_risk": 0.11}), ("risk_nearest", {"target_risk": 0.2}),
       ("index", {"index": 0}), ("column", {"index": -1}), ("TANGENCY", {"risk_free_rate": 0.005}), ("Min_Risk", {})]


def gen_rep(tier):
    for i in range(len(SEL)):
        for a in range(4):
            yield [a, i]


def run_rep(case, ctx):
    a, i = case
    f = atoms()[a]
    before = snap(f)
    sel, kwargs = SEL[i]
    key = sel.lower()
    k = a + i
    for lab in [None] + f.available_risk_measures():
        rk = risk_of(f, lab)
        rf = kwargs.get("risk_free_rate", 0.0)
        if "min" in key and "risk" in key and "subject" not in key:
            cols = cols_for(f, "min_risk", rk, rf)
        elif key.startswith("max") and key.endswith("return"):
            cols = cols_for(f, "max_return", rk, rf)
        elif key in ("tangency", "max_sharpe", "sharpe"):
            cols = cols_for(f, "tangency", rk, rf) + cols_for(f, "tangency", f.risks, rf)
        elif "max_risk" in kwargs:
            ok = [j for j in range(len(rk)) if rk[j] <= kwargs["max_risk"]]
            cols = [j for j in ok if f.returns[j] == max(f.returns[q] for q in ok)]
        elif "min_return" in kwargs:
            ok = [j for j in range(len(rk)) if f.returns[j] >= kwargs["min_return"]]
            cols = [j for j in ok if rk[j] == min(rk[q] for q in ok)]
        elif "target_risk" in kwargs:
            d = np.abs(rk - kwargs["target_risk"])
            cols = [j for j in range(len(rk)) if d[j] <= d.min() + 1e-15]
        elif "index" in kwargs:
            cols = [kwargs["index"] % len(rk)]
        else:
            w = f.at_percentile(kwargs["percentile"], risk_label=lab)[0]
            cols = [j for j in range(len(rk)) if np.array_equal(f.weights[:, j], np.asarray(w))]
        for ov in ((), ("CVaR", "Volatility")):
            k += 1
            show, pct = bool(k & 1), bool(k & 2)
            kw = dict(kwargs)
            what = f"{case} {sel} {kwargs} risk_label={lab} overlay={ov}"
            call = lambda: PL.plot_frontier_report(f, selection=sel, selection_kwargs=kw, risk_label=lab, overlay_risk_labels=ov, show_points=show, percent_axes=pct, weights_title="WT")
            try:
                if not cols:
                    ctx.raises(call, Exception, f"{what}: undefined selection drawn")
                    continue
                fig, axes = call()
                ctx.step(); ctx.state()
                ax, bx = axes
                ctx.check(kw == kwargs, f"{what}: selection options changed to {kw}")
                # right panel: one portfolio
                got = bars(bx, "barh")
                names = [str(x) for x in (f.asset_names or range(3))]
                col = [j for j in range(len(rk)) if len(got) == 1 and set(got[0][1]) == set(names) and all(abs(got[0][1][q][0] - f.weights[z, j]) < 1e-12 for z, q in enumerate(names))]
                ctx.check(len(col) == 1 and col[0] in cols, lambda: f"{what}: weights shown are those of column {col}, expected one of {cols}: {got}")
                ctx.check(bx.get_title() == "WT", f"{what}: weights title {bx.get_title()!r}")
                percent(ctx, f"{what} weights", bx.xaxis, pct); percent(ctx, f"{what} x", ax.xaxis, pct); percent(ctx, f"{what} y", ax.yaxis, pct)
                # left panel
                want = [(None, np.column_stack([rk, f.returns]), False)] + [(None, np.column_stack([risk_of(f, o), f.returns]), True) for o in ov if o in f.available_risk_measures()]
                match(ctx, f"{what} curves", lines_of(ax), want)
                mark = [(None, np.column_stack([rk, f.returns]))] if show else []
                if len(col) == 1:
                    mark.append((None, np.array([[rk[col[0]], f.returns[col[0]]]])))
                    match(ctx, f"{what} markers", points_of(ax), mark)
                ctx.check(ax.get_xlabel() == (lab or f.risk_measure), lambda: f"{what}: x label {ax.get_xlabel()!r}")
            finally:
                plt.close("all")
    # weights supplied by the caller are the ones shown
    w = pd.Series([0.2, 0.3, 0.5], index=["u", "v", "w"])
    try:
        fig, axes = PL.plot_frontier_report(f, weights=w)
        ctx.step()
        got = bars(axes[1], "barh")
        ctx.check(len(got) == 1 and {q: round(z[0], 12) for q, z in got[0][1].items()} == dict(w), lambda: f"{case}: supplied weights drawn as {got}")
        ctx.raises(lambda: PL.plot_frontier_report(f, selection="best"), Exception, f"{case}: unknown selection drawn")
    finally:
        plt.close("all")
    ctx.check(snap(f) == before, f"{case}: plotting changed the frontier")
    ctx.out(key)


# ---------------------------------------------------------------- robust plots
def gen_rob(tier):
    vals = [0.0, 0.5, 2.0, None]
    for M in (1, 2, 3):
        for v in itertools.product(range(4), repeat=M):
            yield [[vals[i] for i in v]]
    yield [[]]


def run_rob(case, ctx):
    v = case[0]
    M = len(v) or 3
    ret, risk, alt = [0.01, 0.03, 0.02][:M], [0.1, 0.2, 0.15][:M], [0.3, 0.25, 0.4][:M]
    for param in ("lambda", "kappa"):
        meta = [{param: x, "other": 9.0} for x in v] if v else None
        f = mkf(ret, risk, alt={"CVaR": alt}, meta=meta)
        before = snap(f)
        fin = bool(v) and all(x is not None for x in v)
        for lab in (None, "CVaR"):
            rk = risk_of(f, lab)
            for ov in (None, "CVaR", "nope"):
                show, pct = (ov != "CVaR"), (lab is None)
                what = f"{case} {param} risk_label={lab} overlay={ov}"
                try:
                    fig, own = plt.subplots()
                    ax = PL.plot_robust_path(f, param=param, risk_label=lab, overlay_risk_label=ov, ax=own if show else None, percent_axes=pct, show_points=show)
                    ctx.step(); ctx.state()
                    ctx.check((ax is own) == show, f"{what}: axis not honoured")
                    pc = [c for c in ax.collections if isinstance(c, PathCollection)]
                    match(ctx, f"{what} nodes", points_of(ax), [(None, np.column_stack([rk, f.returns]))])
                    want = [(None, np.column_stack([rk, f.returns]), False)] if show else []
                    if ov == "CVaR":
                        want.append((None, np.column_stack([f.alternate_risks["CVaR"], f.returns]), True))
                    match(ctx, f"{what} curves", lines_of(ax), want)
                    bar = [a for a in ax.figure.axes if a is not ax]
                    if ctx.check(len(bar) == 1 and len(pc) == 1, f"{what}: {len(bar)} colour bars"):
                        if fin:
                            ctx.check(bar[0].get_ylabel() == param and np.allclose(np.asarray(pc[0].get_array(), float), v), lambda: f"{what}: colours {pc[0].get_array()} labelled {bar[0].get_ylabel()} for {v}")
                        else:
                            ctx.check(bar[0].get_ylabel() != param, lambda: f"{what}: made-up colours {pc[0].get_array()} labelled {param}")
                    ctx.check(ax.get_xlabel() == (lab or f.risk_measure), f"{what}: x label {ax.get_xlabel()!r}")
                    percent(ctx, f"{what} x", ax.xaxis, pct); percent(ctx, f"{what} y", ax.yaxis, pct)
                finally:
                    plt.close("all")
            for given in (False, True):
                what = f"{case} {param} risk_label={lab} given={given}"
                try:
                    own = plt.subplots(1, 2)[1] if given else None
                    if given and lab:
                        own = tuple(own)
                    call = lambda: PL.plot_param_impact(f, param=param, risk_label=lab, percent_axes=given, ax=own)
                    if not fin:
                        ctx.raises(call, Exception, f"{what}: missing parameter drawn")
                    else:
                        fig, axes = call()
                        ctx.step(); ctx.state()
                        ctx.check(not given or all(x is y for x, y in zip(axes, own)), f"{what}: axes not honoured")
                        for ax, y, nm in ((axes[0], f.returns, None), (axes[1], rk, lab or f.risk_measure)):
                            ls = lines_of(ax)
                            if ctx.check(len(ls) == 1, f"{what}: {len(ls)} curves"):
                                d = ls[0][1]
                                ctx.check(sorted(map(tuple, d.round(12))) == sorted(zip(np.round(v, 12), np.round(y, 12))), lambda: f"{what}: drew {d.tolist()} for {list(zip(v, y))}")
                                ctx.check(bool(np.all(np.diff(d[:, 0]) >= 0)), lambda: f"{what}: parameter not sorted {d[:, 0]}")
                            ctx.check(ax.get_xlabel() == param and (nm is None or ax.get_ylabel() == nm), f"{what}: labels {ax.get_xlabel()!r} {ax.get_ylabel()!r}")
                            percent(ctx, what, ax.yaxis, given)
                finally:
                    plt.close("all")
            try:
                call = lambda: PL.plot_robust_surface(f, param=param, risk_label=lab)
                what = f"{case} surface {param} risk_label={lab}"
                if not fin:
                    ctx.raises(call, Exception, f"{what}: missing parameter drawn")
                else:
                    ax = call()
                    ctx.step(); ctx.state()
                    got = np.column_stack([np.asarray(z, float) for z in ax.collections[0]._offsets3d])
                    ctx.check(len(ax.collections) == 1 and sorted(map(tuple, got.round(12))) == sorted(zip(np.round(v, 12), np.round(rk, 12), np.round(f.returns, 12))), lambda: f"{what}: drew {got.tolist()}")
                    ctx.check((ax.get_xlabel(), ax.get_ylabel()) == (param, lab or f.risk_measure), f"{what}: labels {ax.get_xlabel()!r} {ax.get_ylabel()!r}")
            finally:
                plt.close("all")
        ctx.check(snap(f) == before, f"{case}: plotting changed the frontier")
    ctx.out("finite" if v and all(x is not None for x in v) else "missing values")


# ---------------------------------------------------------------- assumptions
def gen_asm(tier):
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for vec in range(4):
            for T in (0, 1, 3, 6):
                for unc in (0, 1):
                    yield [n, vec, T, unc]


def run_asm(case, ctx):
    n, vec, T, unc = case
    sg = np.array([0.2, 0.1, 0.3, 0.15, 0.25])[:n]
    C = np.array([[1.0 if i == j else (0.3, -0.2, 0.0, 0.6)[vec] / (1 + abs(i - j)) for j in range(n)] for i in range(n)])
    S = C * np.outer(sg, sg)
    mu = np.array([0.05, -0.02, 0.08, 0.01, 0.03])[:n]
    R = np.array([[((3 * t + 5 * j + t * j) % 7 - 3) / 20 for j in range(n)] for t in range(T)]) if T else None
    U = np.diag(sg ** 2) * 0.1 if unc else None
    lam, V = np.linalg.eigh(S)
    o = np.argsort(lam)[::-1]
    V3 = V[:, o[:3]]
    for ns in (1.0, 2.0):
        what = f"{case} n_std={ns}"
        ins = (mu.copy(), S.copy(), None if R is None else R.copy(), None if U is None else U.copy())
        try:
            mp = 4
            fig, axes = PL.plot_assumptions_3d(mu, S, scenarios=R, uncertainty_cov=U, n_std=ns, uncertainty_std=3.0, max_points=mp, titles=("A", "B"))
            ctx.step(); ctx.state()
            ctx.check(len(axes) == 1 + unc, f"{what}: {len(axes)} panels")
            ok_sign = False
            for s in itertools.product((1, -1), repeat=3):
                P = V3 * np.array(s)
                good = True
                for q, (ax, cov, rad) in enumerate(zip(axes, (S, U), (ns, 3.0))):
                    c3 = P.T @ cov @ P
                    pts = [np.column_stack([np.asarray(z, float) for z in c._offsets3d]) for c in ax.collections if hasattr(c, "_offsets3d")]
                    want = [(P.T @ mu)[None, :]]
                    if q == 0 and R is not None:
                        proj = R @ P
                        cloud = [p for p in pts if p.shape[0] == min(T, mp)]
                        # a thinned cloud shows a subset of the scenarios
                        good = good and any(all(np.any(np.all(np.isclose(proj, row, atol=1e-10), axis=1)) for row in p) for p in cloud)
                        good = good and len(pts) == 2
                    else:
                        good = good and len(pts) == 1
                    good = good and any(p.shape == (1, 3) and np.allclose(p, want[0], atol=1e-10) for p in pts)
                    tot = np.zeros((3, 3))
                    for l in ax.get_lines():
                        d = np.array(l.get_data_3d(), float).T
                        good = good and np.allclose(d.mean(axis=0), P.T @ mu, atol=1e-7)
                        h = (d[-1] - d[0]) / 2
                        tot += np.outer(h, h)
                    good = good and np.allclose(tot, c3, atol=1e-9)
                    # every vertex of the surface lies on the ellipsoid of the stated radius
                    for c in ax.collections:
                        ver = getattr(c, "_faces", None)
                        if ver is None or hasattr(c, "_offsets3d"):
                            continue
                        x = np.asarray(ver, float).reshape(-1, 3) - P.T @ mu
                        m2 = np.einsum("ij,ij->i", x, np.linalg.solve(c3, x.T).T)
                        good = good and np.allclose(m2, rad ** 2, rtol=1e-6)
                if good:
                    ok_sign = True
                    break
            ctx.check(ok_sign, f"{what}: drawn points, axes or ellipsoid differ from the assumptions in every orientation of the principal axes")
            share = lam[o[:3]] / lam.sum()
            for ax, t, rad in zip(axes, ("A", "B"), (ns, 3.0)):
                ctx.check(ax.get_title() == t, f"{what}: title {ax.get_title()!r}")
                lab = [ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()]
                ctx.check(all(f"{x:.0%}" in l for x, l in zip(share, lab)), lambda: f"{what}: axis labels {lab} for explained shares {share}")
                leg = [z.get_text() for z in ax.get_legend().get_texts()]
                ctx.check(any(f"{rad:g}σ" in z for z in leg), lambda: f"{what}: legend {leg} for radius {rad}")
            same_in = all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(ins, (mu, S, R, U)))
            ctx.check(same_in, f"{what}: inputs changed by plotting")
        finally:
            plt.close("all")
    try:
        ctx.raises(lambda: PL.plot_assumptions_3d(mu, S[:, :2]), Exception, f"{case}: rectangular covariance drawn")
        ctx.raises(lambda: PL.plot_assumptions_3d(mu, S, scenarios=np.ones((2, n + 1))), Exception, f"{case}: scenarios of another universe drawn")
        ctx.raises(lambda: PL.plot_assumptions_3d(mu[:2], S), Exception, f"{case}: short mean drawn")
    finally:
        plt.close("all")
    ctx.out(f"n={n}")


# ---------------------------------------------------------------- highlight annotations and styles
META = [None, 0, 0.0, 2, -1.5, "hi", "", False]


def gen_ann(tier):
    for a in range(len(META)):
        for b in range(len(META)):
            for keys in ([], ["k"], ["m"], ["k", "m"], ["m", "k"], ["zz", "k"], ["k", "k2"]):
                if tier == "quick" and len(keys) > 1 and (a + b) % 2:
                    continue
                yield [a, b, keys]


def run_ann(case, ctx):
    a, b, keys = case
    meta = [{"k": META[a], "m": META[b]}, {"k": META[b]}, {"m": META[a], "k2": 7}]
    f = mkf([0.01, 0.02, 0.03], [0.1, 0.2, 0.4], meta=copy.deepcopy(meta))
    plain = mkf([0.02, 0.025], [0.15, 0.12])
    fig, ax = plt.subplots()
    try:
        for custom in (True, False):
            calls = []

            def fmt(k, v):
                calls.append((k, v))
                return "" if v == "hi" else f"<{k}|{v!r}>"
            hl = ("min_risk", "max_return", "tangency")
            kw = dict(highlight_metadata_keys=keys, metadata_value_formatter=fmt) if custom else dict(highlight_metadata_keys=keys)
            ax.cla()
            ctx.step(); ctx.state()
            what = f"{case} custom={custom}"
            PL.plot_frontiers({"One": f, "Two": plain}, ax=ax, highlight=hl, risk_free_rate=0.005, return_label="Gain", marker_kwargs={"min_risk": {"s": 111.0}}, scatter_kwargs={"s": 77.0}, **kw)
            ctx.check(ax.get_ylabel() == "Gain" and ax.get_xlabel() == "Volatility", f"{what}: axis labels {ax.get_xlabel()}, {ax.get_ylabel()}")
            got = {str(c.get_label()): c for c in ax.collections if isinstance(c, PathCollection)}
            ctx.check(len(got) == 6, f"{what}: markers {list(got)}")
            for nm, fr in (("One", f), ("Two", plain)):
                for m in hl:
                    c = cols_for(fr, m, fr.risks, 0.005)[0]
                    hit = [l for l in got if l.startswith(nm) and WORD[m] in l[len(nm):]]
                    if not ctx.check(len(hit) == 1, f"{what}: {m} markers of {nm}: {hit} among {list(got)}"):
                        continue
                    ctx.check(list(got[hit[0]].get_sizes()) == [111.0 if m == "min_risk" else 77.0], f"{what}: {m} marker of {nm} has size {got[hit[0]].get_sizes()}")
                    row = meta[c] if fr is f else {}
                    for k in ("k", "m", "k2"):
                        has = k in keys and row.get(k) is not None
                        if custom:
                            tok = f"<{k}|{row.get(k)!r}>"
                            ctx.check((tok in hit[0]) == (has and row[k] != "hi") and (has or f"<{k}|" not in hit[0]), f"{what}: {m} label {hit[0]!r}, metadata {row}")
                            ctx.check(not has or (k, row[k]) in calls, f"{what}: formatter not asked for {k}={row.get(k)!r}: {calls}")
                        else:
                            ctx.check((f"{k}=" in hit[0]) == has, f"{what}: {m} label {hit[0]!r}, metadata {row}")
                            v = row.get(k)
                            if has and isinstance(v, (int, float)) and not isinstance(v, bool):
                                txt = hit[0].split(f"{k}=")[1].split(",")[0].split(")")[0]
                                ctx.close(float(txt), v, 1e-3, f"{what}: {m} label {hit[0]!r}")
        own = PL.plot_frontiers([f, plain], highlight=())
        ctx.check(own is not ax and own.figure is not fig and len(own.get_lines()) == 2, f"{case}: no new axis")
        ctx.check(f.metadata == meta, f"{case}: metadata changed")
    finally:
        plt.close("all")
    ctx.out(f"{len(keys)} keys")


FAMILIES = [
    Family("patterns", gen_pat, run_pat, "every return/risk pattern of up to three portfolios over three levels x displayed risk x risk-free rate, all highlights", chunk=8),
    Family("sets", gen_sets, run_sets, "every sequence of up to three frontiers (repetition allowed) x label form x displayed risk x overlays; option flags cycled through all values", chunk=1),
    Family("grid", gen_grid, run_grid, "every sequence of frontiers x label form x grouping; legend policies, columns and highlights cycled", chunk=1),
    Family("weights", gen_w, run_w, "every weight vector over four levels as Series or frame x kind x top_n x stacking", chunk=4),
    Family("reports", gen_rep, run_rep, "every frontier x selection x displayed risk x overlay", chunk=1),
    Family("robust", gen_rob, run_rob, "every parameter vector over four values (one missing) x displayed risk x overlay", chunk=2),
    Family("assumptions", gen_asm, run_asm, "every covariance shape x scenario count x uncertainty panel x radius", chunk=1),
    Family("annotations", gen_ann, run_ann, "every pair of metadata values (missing, zero, negative, text, empty) x requested keys x formatter; marker styles, axis labels and a fresh axis", chunk=4),
]
