"""Exploration core: exhaustive case enumeration, history search, evidence, replay, known findings."""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_env():
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.filterwarnings("ignore")
    import doubleml

    here = os.path.realpath(os.path.dirname(doubleml.__file__))
    if not here.startswith(os.path.realpath(REPO)):
        print(f"ERROR: doubleml imported from {here}, not from {REPO}")
        sys.exit(3)
    warnings.filterwarnings("ignore")
    import numpy as np

    np.seterr(all="ignore")


class Fail(Exception):
    """property violated"""

    def __init__(self, key, msg):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg


class Rec:
    """per-case recorder (filled in a worker, merged by the parent)"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []
        self.notes = collections.Counter()

    def state(self, *key):
        self.states.add(h(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(h(key))

    def note(self, k, n=1):
        self.notes[k] += n

    def fail(self, key, msg, **detail):
        if len(self.fails) < 8 and not any(f["key"] == key for f in self.fails):
            self.fails.append({"key": key, "msg": msg, "detail": jsonable(detail)})

    def expect(self, cond, key, msg="", **detail):
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)


def jsonable(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 200 else f"<array {o.shape}>"
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


def canon(o, nd=9):
    """canonical, hashable, rounded form of a value"""
    import numpy as np
    import pandas as pd

    if isinstance(o, pd.DataFrame):
        return ("df", tuple(map(str, o.columns)), tuple(map(str, o.index)), canon(o.values, nd))
    if isinstance(o, pd.Series):
        return ("s", tuple(map(str, o.index)), canon(o.values, nd))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ao", o.shape, tuple(canon(v, nd) for v in o.ravel().tolist()))
        if o.dtype.kind == "f":
            r = np.round(o, nd) + 0.0
            return ("a", o.shape, tuple(r.ravel().tolist().__repr__().split(",")))
        return ("a", o.shape, tuple(o.ravel().tolist()))
    if isinstance(o, dict):
        return ("d", tuple(sorted((str(k), canon(v, nd)) for k, v in o.items())))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(canon(v, nd) for v in o))
    if isinstance(o, (float, np.floating)):
        return repr(round(float(o), nd) + 0.0)
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o)
    if o is None or isinstance(o, str):
        return o
    return repr(o)


def h(o):
    return hashlib.blake2b(repr(o).encode(), digest_size=12).hexdigest()


def close(a, b, rtol=1e-7, atol=1e-9):
    """numerically equal, NaNs in the same places, same shape"""
    import numpy as np

    if a is None or b is None:
        return a is None and b is None
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def scaled_close(a, b, rtol=1e-7):
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    fin = np.abs(b[np.isfinite(b)]) if b.size else b
    sc = float(fin.max()) if fin.size else 1.0
    return close(a, b, rtol=rtol, atol=rtol * max(sc, 1e-8))


def _quiet_init():
    setup_env()


_CASE_FN = None


def _run_one(args):
    i, case = args
    rec = Rec()
    t0 = time.time()
    err = None
    try:
        _CASE_FN(case, rec)
    except Fail as e:
        rec.fail(e.key, e.msg)
    except Exception as e:  # an unexpected library exception on a case that must succeed
        tb = traceback.format_exc()
        origin = "harness"
        in_repo = None
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(os.path.realpath(REPO) + os.sep):
                origin = "library"
                in_repo = fr.name
        if origin == "library":
            rec.fail(f"exception:{type(e).__name__}:{case_name(case)}", f"unexpected {type(e).__name__}: {e}", trace=tb[-1800:])
        elif isinstance(e, (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, AssertionError)):
            # the observed value has no longer the form every observation had on a tree satisfying the property
            rec.fail(f"observation:{type(e).__name__}:{case_name(case)}", f"observation failed with {type(e).__name__}: {e}", trace=tb[-1800:])
        else:
            err = tb
    return i, rec, err, time.time() - t0


def case_name(case):
    if isinstance(case, dict):
        return str(case.get("name", case.get("cfg", "")))
    return ""


class Check:
    """one property's check"""

    def __init__(self, prop, case_fn, cases_fn, level="model_checking", assumptions=(), rule="", exhaustive=True):
        self.prop = prop
        self.case_fn = case_fn
        self.cases_fn = cases_fn
        self.level = level
        self.assumptions = list(assumptions)
        self.rule = rule
        self.exhaustive = exhaustive

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay")
        ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
        ap.add_argument("--list", action="store_true")
        ap.add_argument("--only", help="substring filter on case json (debug; evidence not written)")
        ap.add_argument("--times", action="store_true")
        a = ap.parse_args()
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1"))
        setup_env()
        global _CASE_FN
        _CASE_FN = self.case_fn
        if a.replay:
            art = json.load(open(a.replay))
            os.environ["VERIF_SEED"] = str(art.get("seed", seed))
            _, rec, err, _ = _run_one((0, art["case"]))
            if err:
                print(err)
                sys.exit(3)
            for f in rec.fails:
                print("REPLAYED", f["key"], f["msg"])
            sys.exit(1 if rec.fails else 0)
        t0 = time.time()
        cases = list(self.cases_fn(tier, seed))
        if a.only:
            cases = [c for c in cases if a.only in json.dumps(jsonable(c))]
        if a.list:
            for c in cases:
                print(json.dumps(jsonable(c)))
            print(len(cases))
            return
        states, outcomes = set(), set()
        transitions = traces = 0
        notes = collections.Counter()
        fails, errs, slow = [], [], []
        # long cases first would need costs; interleave instead
        ctx = mp.get_context("fork")
        jobs = list(enumerate(cases))
        if a.workers > 1 and len(jobs) > 1:
            with ctx.Pool(min(a.workers, len(jobs)), initializer=_quiet_init) as pool:
                chunk = max(1, min(32, len(jobs) // (a.workers * 8)))
                for i, rec, err, dt in pool.imap_unordered(_run_one, jobs, chunksize=chunk):
                    states |= rec.states
                    outcomes |= rec.outcomes
                    transitions += rec.transitions
                    traces += rec.traces
                    notes.update(rec.notes)
                    slow.append((dt, i))
                    if err:
                        errs.append((i, err))
                    for f in rec.fails:
                        fails.append((i, f))
                    if fails and os.environ.get("VERIF_FAILFAST") and any(match_known(load_known(self.prop), f["key"]) is None for _, f in fails):
                        pool.terminate()  # debugging aid: stop at the first violation
                        break
        else:
            for job in jobs:
                i, rec, err, dt = _run_one(job)
                states |= rec.states
                outcomes |= rec.outcomes
                transitions += rec.transitions
                traces += rec.traces
                notes.update(rec.notes)
                slow.append((dt, i))
                if err:
                    errs.append((i, err))
                for f in rec.fails:
                    fails.append((i, f))
        if a.times:
            agg = collections.Counter()
            for dt, i in slow:
                agg[str(cases[i].get("kind", "")) if isinstance(cases[i], dict) else ""] += dt
            print({k: round(v, 1) for k, v in agg.items()})
            for dt, i in sorted(slow, reverse=True)[:10]:
                print(f"{dt:.2f}s", json.dumps(jsonable(cases[i]))[:200])
        known = load_known(self.prop)
        fails.sort(key=lambda x: x[0])
        new, seen_known = [], {}
        for i, f in fails:
            k = match_known(known, f["key"])
            if k is not None:
                seen_known.setdefault(k["key"], (k, f))
            else:
                new.append((i, f))
        for k, f in seen_known.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        wall = time.time() - t0
        samples = [jsonable(cases[j]) for j in sorted(set([0, len(cases) // 2, len(cases) - 1])) if cases]
        cov = {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "distinct_outcomes": len(outcomes),
            "cases": len(cases),
            "samples": samples,
            "rule": self.rule,
            "exhaustive": bool(self.exhaustive and not a.only),
            "notes": dict(notes),
            "evaluations": len(cases),
            "distinct_nontrivial": len(outcomes),
        }
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        if not a.only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fh:
                json.dump(ev, fh, indent=1)
        print(
            f"{self.prop} tier={tier} seed={seed} cases={len(cases)} states={len(states)} transitions={transitions} "
            f"traces={traces} outcomes={len(outcomes)} violations={len(new)} wall={wall:.1f}s notes={dict(notes)}"
        )
        if new:
            cnt = collections.Counter(f["key"] for _, f in new)
            print("keys:", dict(cnt.most_common(40)))
            outd = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(outd, exist_ok=True)
            shown = set()
            for i, f in new:
                if f["key"] in shown:
                    continue
                shown.add(f["key"])
                if len(shown) > 10:
                    break
                path = os.path.join(outd, f"{h((f['key'], jsonable(cases[i])))[:10]}.json")
                with open(path, "w") as fh:
                    json.dump(
                        {"property": self.prop, "seed": seed, "tier": tier, "case": jsonable(cases[i]), "fail": f}, fh, indent=1
                    )
                print("  ", f["key"], "::", f["msg"][:500])
                if os.environ.get("VERIF_TRACE") and f["detail"].get("trace"):
                    print(f["detail"]["trace"])
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            sys.exit(1)
        if errs:
            print(f"HARNESS ERROR in {len(errs)} case(s), first:")
            print(json.dumps(jsonable(cases[errs[0][0]]))[:300])
            print(errs[0][1])
            sys.exit(3)
        if not cases:
            print("no cases")
            sys.exit(3)
        sys.exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                rest = line[len("finding: "):]
                parts = rest.split(" ", 2)
                kv = dict(x.split("=", 1) for x in parts[:2])
                if kv.get("property") == prop:
                    out.append({"key": kv["key"], "what": parts[2] if len(parts) > 2 else kv["key"]})
    return out


def match_known(known, key):
    for k in known:
        if k["key"] == key:
            return k
    return None


def raises(fn, *exc):
    """run fn; return the exception (or None)"""
    try:
        fn()
    except Exception as e:
        return e
    return None


def set_partitions(n, kmin=1, kmax=None):
    """all set partitions of range(n) as restricted growth strings"""
    kmax = kmax or n

    def rec(prefix, m):
        if len(prefix) == n:
            if m >= kmin:
                yield tuple(prefix)
            return
        for v in range(min(m + 1, kmax)):
            yield from rec(prefix + [v], max(m, v + 1))

    yield from rec([], 0)
