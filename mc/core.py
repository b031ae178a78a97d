"""Bounded exhaustive exploration core.

A check module (checks/<id>.py) declares *families*.  A family is a finite,
deterministically ordered space of cases (JSON-able values) together with a
function that drives the real code of /repo on one case and compares every
observation with a reference model.  The core enumerates each space completely
(no sampling), distributes it over processes, collects counters and violations,
writes the evidence file and prints the verdict.
"""
from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_REPORT = int(os.environ.get("VERIF_MAX_REPORT", "8"))


class Violation(Exception):
    pass


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.fails = []          # (key, message)
        self.softs = []          # solver non-convergence on solvable problems (tolerated when rare)
        self.states = 0          # distinct inputs/states on which an oracle was evaluated
        self.transitions = 0     # calls of the real code
        self.validated = 0       # observations compared with the reference model
        self.outcomes = {}       # outcome tag -> count

    def fail(self, msg, key=None):
        self.fails.append((key, str(msg)))

    def refused(self, exc, msg, key=None, soft=False):
        """The call raised on a solvable problem: tolerated (when rare) only if it is the numerical
        solver's own 'unknown' status, i.e. an interior-point iteration that did not converge."""
        text = f"{msg}: raised {type(exc).__name__}: {exc}"
        if soft or "unknown" in str(exc):
            self.softs.append((key, text))
            self.out("solver did not converge")
        else:
            self.fail(text, key)

    def check(self, cond, msg, key=None):
        self.validated += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def out(self, tag, n=1):
        self.outcomes[tag] = self.outcomes.get(tag, 0) + n

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    # comparisons -----------------------------------------------------
    def close(self, got, want, tol, msg, key=None):
        import numpy as np
        self.validated += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.all(np.isfinite(g) == np.isfinite(w)))
            if ok:
                fin = np.isfinite(w)
                scale = 1.0 + np.abs(np.where(fin, w, 0.0))
                with np.errstate(all="ignore"):
                    ok = bool(np.all(np.where(fin, np.abs(np.where(fin, g, 0) - np.where(fin, w, 0)) <= tol * scale, g == w) | (~fin & np.isnan(g) & np.isnan(w))))
        except Exception as exc:  # wrong type is a wrong answer
            ok = False
            msg = f"{msg} [{type(exc).__name__}: {exc}]"
        if not ok:
            self.fail(f"{msg}: got {_short(got)} want {_short(want)}", key)
        return ok

    def raises(self, fn, exc, msg, key=None):
        """fn() must raise an instance of exc (default: any Exception)."""
        self.validated += 1
        self.transitions += 1
        try:
            res = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(f"{msg}: raised {type(e).__name__}: {e}", key)
            return False
        self.fail(f"{msg}: returned {_short(res)} instead of raising", key)
        return False


def _short(x, n=300):
    import numpy as np
    try:
        s = np.array2string(np.asarray(x), precision=10, threshold=40) if not isinstance(x, str) else x
    except Exception:
        s = repr(x)
    s = " ".join(s.split())
    return s[:n]


class Family:
    def __init__(self, name, gen, run, note="", chunk=None):
        self.name, self.gen, self.run, self.note, self.chunk = name, gen, run, note, chunk


class _Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise _Timeout()


_MOD = None
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "120"))


def _run_case(fam, case):
    import numpy as np
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fam.run(case, ctx)
    except _Timeout:
        ctx.fail(f"did not terminate within {CASE_TIMEOUT}s")
    except MemoryError:
        ctx.fail("ran out of memory")
    except Exception as exc:  # the code under test failed on an admissible input
        if isinstance(exc, RuntimeError) and "status='unknown'" in str(exc):
            ctx.refused(exc, "case")
            return ctx
        tb = traceback.extract_tb(exc.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        ctx.fail(f"unexpected {type(exc).__name__}: {exc} [{where}]")
    finally:
        signal.alarm(0)
    return ctx


def _work(args):
    fi, cases = args
    fam = _MOD.FAMILIES[fi]
    tot = Ctx()
    bad = []
    soft = []
    for idx, case in cases:
        c = _run_case(fam, case)
        tot.states += c.states
        tot.transitions += c.transitions
        tot.validated += c.validated
        for k, v in c.outcomes.items():
            tot.outcomes[k] = tot.outcomes.get(k, 0) + v
        if c.fails:
            bad.append((idx, case, c.fails))
        if c.softs:
            soft.append((idx, case, c.softs))
    return fi, len(cases), tot, bad, soft


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <what fails>'."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                res[(pid, key)] = parts[3] if len(parts) > 3 else ""
    return res


def silence():
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def load_module(pid):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    return importlib.import_module(f"checks.{pid.lower()}")


def _check_import():
    import pyvallocation
    f = os.path.realpath(pyvallocation.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pyvallocation imported from {f}, not from {REPO}")


def main(argv):
    global _MOD
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1)
    ap.add_argument("--max-seconds", type=float, default=None)
    a = ap.parse_args(argv)
    t0 = time.time()
    silence()
    pid = a.pid.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repdir = os.path.join(ROOT, "replays")
    os.makedirs(repdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        sys.path.insert(0, ROOT)
        sys.path.insert(0, REPO)
        _check_import()
        _MOD = load_module(pid)
    except Exception as exc:
        if "pyvallocation imported from" in str(exc):
            raise
        path = os.path.join(repdir, f"{pid}-import.json")
        json.dump({"property": pid, "message": f"import failed: {exc}"}, open(path, "w"))
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    fams = _MOD.FAMILIES
    if a.replay:
        rec = json.load(open(a.replay))
        fam = next(f for f in fams if f.name == rec["family"])
        c = _run_case(fam, rec["case"])
        for k, m in c.fails:
            print("FAIL", k or "", m)
        if c.fails:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("case holds")
        return 0

    limit = a.max_seconds or (780.0 if a.tier == "quick" else 6 * 3600.0)
    tasks = []
    counts = {}
    samples = []
    for fi, fam in enumerate(fams):
        if a.family and fam.name != a.family:
            continue
        cases = [(i, _jsonable(c)) for i, c in enumerate(fam.gen(a.tier))]
        counts[fam.name] = len(cases)
        if cases:
            samples.append({"family": fam.name, "case": cases[len(cases) // 2][1]})
        size = fam.chunk or max(1, min(200, len(cases) // (a.jobs * 6) + 1))
        for s in range(0, len(cases), size):
            tasks.append((fi, cases[s:s + size]))
    total = Ctx()
    done = {f.name: 0 for f in fams}
    outc = {}
    bad = []
    soft = []
    steps = {}
    capped = False
    if a.jobs == 1 or len(tasks) == 1:
        it = map(_work, tasks)
        pool = None
    else:
        import multiprocessing as mp
        pool = mp.get_context("fork").Pool(min(a.jobs, len(tasks)) or 1)
        it = pool.imap_unordered(_work, tasks)
    try:
        while True:
            try:
                if pool is not None:
                    r = it.next(timeout=max(1.0, limit - (time.time() - t0)))
                else:
                    r = next(it)
            except StopIteration:
                break
            except Exception as exc:
                if type(exc).__name__ == "TimeoutError":
                    capped = True
                    break
                raise
            fi, n, c, b, sf = r
            soft.extend((fi, i, case, f) for i, case, f in sf)
            nm = fams[fi].name
            done[nm] += n
            total.states += c.states
            total.transitions += c.transitions
            steps[fi] = steps.get(fi, 0) + c.transitions
            total.validated += c.validated
            d = outc.setdefault(nm, {})
            for k, v in c.outcomes.items():
                d[k] = d.get(k, 0) + v
            bad.extend((fi, i, case, f) for i, case, f in b)
            if len(bad) > 400:
                capped = True
                break
            if time.time() - t0 > limit:
                capped = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    nsoft = sum(len(f) for *_, f in soft)
    for fi in range(len(fams)):
        mine = [x for x in soft if x[0] == fi]
        if sum(len(f) for *_, f in mine) > max(3, 0.01 * steps.get(fi, 0)):
            bad.extend(mine)  # far too many non-convergences: report them as failures
    known = load_known()
    bad.sort(key=lambda x: (x[0], x[1]))
    seen_known = {}
    viol = []
    for fi, i, case, fails in bad:
        for key, msg in fails:
            if key is not None and (pid, key) in known:
                seen_known.setdefault(key, msg)
            else:
                viol.append((fi, i, case, key, msg))
    for key, msg in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {key}: {known[(pid, key)]}")
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, f))
    for n, (fi, i, case, key, msg) in enumerate(viol[:MAX_REPORT]):
        path = os.path.join(repdir, f"{pid}-{n}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "family": fams[fi].name, "index": i, "case": case, "key": key, "message": msg}, fh, indent=1)
        print(f"[{fams[fi].name} #{i}] {msg[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    if len(viol) > MAX_REPORT:
        print(f"... {len(viol) - MAX_REPORT} further failing observations")

    level = getattr(_MOD, "LEVEL", "model_checking")
    cov = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.validated,
        "evaluations": sum(done.values()),
        "distinct_nontrivial": total.states,
        "rule": getattr(_MOD, "RULE", "each case is one point of a completely enumerated finite space; every case is distinct by construction"),
        "samples": samples[:12],
        "exhaustive": (not capped) and not a.family,
        "families": {f.name: {"cases": counts.get(f.name, 0), "explored": done[f.name], "bound": f.note,
                              "distinct_outcomes": len(outc.get(f.name, {})),
                              "outcomes": dict(sorted(outc.get(f.name, {}).items(), key=lambda kv: -kv[1])[:20])} for f in fams},
        "solver_nonconvergence_tolerated": nsoft,
        "known_findings_seen": sorted(seen_known),
    }
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": getattr(_MOD, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid} tier={a.tier} cases={sum(done.values())} states={total.states} transitions={total.transitions} "
          f"compared={total.validated} outcomes={sum(len(v) for v in outc.values())} capped={capped} violations={len(viol)} wall={time.time()-t0:.1f}s")
    return 1 if viol else 0


def _jsonable(c):
    if isinstance(c, (list, tuple)):
        return [_jsonable(x) for x in c]
    if isinstance(c, dict):
        return {str(k): _jsonable(v) for k, v in c.items()}
    if c is None or isinstance(c, (bool, int, float, str)):
        return c
    try:
        import numpy as np
        if isinstance(c, np.ndarray):
            return c.tolist()
        if isinstance(c, np.generic):
            return c.item()
    except Exception:
        pass
    raise TypeError(f"case not JSON-able: {type(c)}")
