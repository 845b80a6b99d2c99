"""C02 drawn splits: every group-membership pattern of small samples x model class x folds x repetitions (and every sample size
for the resampling classes); each drawn splitting is checked against the definition of a balanced, stratified, complementary
partition, replayed under the same seed, redrawn and re-drawn after a user splitting."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pandas as pd

from mc.catalog import rng_for
from mc.core import Check
from mc.spy import CTL, clf, lin

ONE = {  # models whose groups are the treatment
    "IRM": (("d",), {}), "PQ": (("d",), {}), "CVaR": (("d",), {}), "DID": (("d",), {}), "QTE": (("d",), {}),
    "APO": (("d",), {}), "APOS": (("d",), {}),
}
TWO = {"IIVM": ("d", "z"), "LPQ": ("d", "z"), "SSM": ("d", "s"), "SSMn": ("d", "s"), "DIDCS": ("d", "t"), "DIDCSe": ("d", "t")}
NONE = ["PLR", "PLIV"]


def data(model, cols, seed):
    import doubleml as dml

    n = len(next(iter(cols.values())))
    r = rng_for(seed, "c02", n)
    df = pd.DataFrame({"y": r.randn(n), "X1": np.arange(n) * 0.1, "zc": r.randn(n)})
    for k, v in cols.items():
        df[k] = np.asarray(v, dtype=float)
    kw = {}
    if model in ("IIVM", "LPQ"):
        kw["z_cols"] = "z"
    if model in ("SSM", "SSMn"):
        kw["s_col"] = "s"
    if model in ("PLIV", "SSMn"):
        kw["z_cols"] = "zc"
    if model in ("DIDCS", "DIDCSe"):
        kw["t_col"] = "t"
    return dml.DoubleMLData(df, "y", "d", x_cols=["X1"], **kw)


def build(model, dat, **kw):
    import doubleml as dml

    g, c = lin("g"), clf("m")
    M = {
        "PLR": lambda: dml.DoubleMLPLR(dat, g, g, **kw),
        "PLIV": lambda: dml.DoubleMLPLIV(dat, g, g, g, **kw),
        "IRM": lambda: dml.DoubleMLIRM(dat, g, c, **kw),
        "APO": lambda: dml.DoubleMLAPO(dat, g, c, treatment_level=1, **kw),
        "APOS": lambda: dml.DoubleMLAPOS(dat, g, c, treatment_levels=[1.0, 0.0], **kw),
        "PQ": lambda: dml.DoubleMLPQ(dat, c, c, treatment=1, **kw),
        "CVaR": lambda: dml.DoubleMLCVAR(dat, g, c, treatment=1, **kw),
        "QTE": lambda: dml.DoubleMLQTE(dat, c, c, quantiles=[0.4, 0.6], **kw),
        "DID": lambda: dml.DoubleMLDID(dat, g, c, **kw),
        "IIVM": lambda: dml.DoubleMLIIVM(dat, g, c, c, **kw),
        "LPQ": lambda: dml.DoubleMLLPQ(dat, c, c, treatment=1, **kw),
        "SSM": lambda: dml.DoubleMLSSM(dat, g, c, c, **kw),
        "SSMn": lambda: dml.DoubleMLSSM(dat, g, c, c, score="nonignorable", **kw),
        "DIDCS": lambda: dml.DoubleMLDIDCS(dat, g, c, **kw),
        "DIDCSe": lambda: dml.DoubleMLDIDCS(dat, g, c, score="experimental", **kw),
    }
    return M[model]()


def key(smpls):
    return tuple(tuple((tuple(map(int, a)), tuple(map(int, b))) for a, b in rep) for rep in smpls)


def verify(rec, nm, smpls, n, n_folds, n_rep, groups):
    rec.step()
    ok = rec.expect(len(smpls) == n_rep, f"reps:{nm}", f"{len(smpls)} repetitions instead of {n_rep}")
    al = np.arange(n)
    for rep in smpls:
        ok &= rec.expect(len(rep) == n_folds, f"folds:{nm}", f"{len(rep)} folds instead of {n_folds}")
        tests = np.concatenate([np.asarray(te) for _, te in rep]) if rep else np.array([])
        ok &= rec.expect(np.array_equal(np.sort(tests), al), f"partition:{nm}", f"test parts {[list(map(int, t)) for _, t in rep]}")
        for tr, te in rep:
            ok &= rec.expect(np.array_equal(np.sort(tr), np.setdiff1d(al, te)), f"complement:{nm}",
                             f"training part {list(tr)} of test part {list(te)}")
        sz = [len(te) for _, te in rep]
        ok &= rec.expect(max(sz) - min(sz) <= 1, f"sizes:{nm}", f"fold sizes {sz}")
        if groups is not None:
            for g in sorted(set(groups)):
                c = [sum(1 for i in te if groups[i] == g) for _, te in rep]
                ok &= rec.expect(max(c) - min(c) <= 1, f"strata:{nm}", f"group {g}: counts per fold {c}")
    return ok


def case_fn(case, rec):
    {"model": model_case, "class": class_case, "reps": reps_case, "nodraw": nodraw_case, "cluster": cluster_case, "creps": cluster_reps_case}[case["kind"]](case, rec)


def model_case(case, rec):
    import warnings

    warnings.simplefilter("ignore")
    nm = case["model"]
    pats = case["pats"]
    for pat in pats:
        cols = {k: pat[i] for i, k in enumerate(case["cols"])}
        n = len(pat[0])
        dat = data(nm, cols, case["seed"])
        groups = list(zip(*pat)) if case["cols"] and nm not in NONE else None
        for nf in case["folds"]:
            if groups is not None and nf > max(groups.count(g) for g in set(groups)):
                continue  # no group large enough for that many folds
            for nr in case["reps"]:
                CTL.reset(log=False)
                np.random.seed(case["seed"] + 3)
                m = build(nm, dat, n_folds=nf, n_rep=nr)
                a = m.smpls
                rec.state(nm, pat, nf, nr)
                rec.outcome(nm, key(a))
                if not verify(rec, nm, a, n, nf, nr, groups):
                    return
                ka = key(a)
                rec.expect(m.n_folds == nf and m.n_rep == nr, f"counts:{nm}", f"{m.n_folds}, {m.n_rep}")
                comps = getattr(m, "_modellist", None) or (list(getattr(m, "_modellist_0", [])) + list(getattr(m, "_modellist_1", [])))
                for sub in comps:
                    rec.expect(key(sub.smpls) == ka, f"components:{nm}", "a component model uses another splitting")
                # same seed -> same splitting, at construction and in explicit draws; a new draw replaces everything
                np.random.seed(case["seed"] + 3)
                rec.expect(key(build(nm, dat, n_folds=nf, n_rep=nr).smpls) == ka, f"reproducible:{nm}", "construction not reproducible")
                np.random.seed(case["seed"] + 3)
                m2 = build(nm, dat, n_folds=nf, n_rep=nr, draw_sample_splitting=False)
                m2.draw_sample_splitting()
                kd = key(m2.smpls)
                if not verify(rec, nm, m2.smpls, n, nf, nr, groups):
                    return
                m.draw_sample_splitting()
                comps = getattr(m, "_modellist", None) or (list(getattr(m, "_modellist_0", [])) + list(getattr(m, "_modellist_1", [])))
                for sub in comps:
                    rec.expect(key(sub.smpls) == key(m.smpls), f"components-redraw:{nm}", "a component keeps the previous splitting")
                if not verify(rec, nm, m.smpls, n, nf, nr, groups):
                    return
                np.random.seed(case["seed"] + 3)
                m.draw_sample_splitting()
                rec.expect(key(m.smpls) == kd, f"redraw:{nm}", "a redraw with the seed restored gives another splitting")
                comps = getattr(m, "_modellist", None) or (list(getattr(m, "_modellist_0", [])) + list(getattr(m, "_modellist_1", [])))
                for sub in comps:
                    rec.expect(key(sub.smpls) == key(m.smpls), f"components-redraw:{nm}", "a component keeps the previous splitting")
                # user splitting with another number of folds/repetitions, then draw
                if n >= 4:
                    h2 = n // 2
                    al = np.arange(n)
                    t = [(al[h2:], al[:h2]), (al[:h2], al[h2:])]
                    m.set_sample_splitting([t, t])
                    m.draw_sample_splitting()
                    if groups is None or max(groups.count(g) for g in set(groups)) >= 2:
                        verify(rec, nm, m.smpls, n, 2, 2, groups)
                rec.expect(CTL.n_calls == 0, f"learner-call:{nm}", "drawing a splitting called a learner")
                rec.trace(4)


def class_case(case, rec):
    from doubleml.utils.resampling import DoubleMLResampling

    n, nf, nr = case["n"], case["n_folds"], case["n_rep"]
    if nf > n or nf < 2:
        try:
            s = DoubleMLResampling(n_folds=nf, n_rep=nr, n_obs=n).split_samples()
        except ValueError:
            rec.state("reject", n, nf)
            rec.trace()
            return
        rec.fail("class:infeasible", f"n_folds={nf} with {n} observations gave {s}")
        return
    pats = [None] + (list(itertools.product(range(case["alpha"]), repeat=n)) if case["alpha"] else [])
    if "pats" in case:
        pats = [None] + [tuple(p) for p in case["pats"]]
    for pat in pats:
        if pat is not None and nf > max(pat.count(g) for g in set(pat)):
            continue
        for strat in ([None] if pat is None else [np.array(pat, float), np.array(pat, float).reshape(-1, 1)]):
            np.random.seed(case["seed"])
            r = DoubleMLResampling(n_folds=nf, n_rep=nr, n_obs=n, stratify=strat)
            s = r.split_samples()
            rec.state(n, nf, nr, pat)
            rec.outcome(key(s))
            verify(rec, "class", s, n, nf, nr, pat)
            verify(rec, "class", r.split_samples(), n, nf, nr, pat)
            np.random.seed(case["seed"])
            rec.expect(key(DoubleMLResampling(n_folds=nf, n_rep=nr, n_obs=n, stratify=strat).split_samples()) == key(s),
                       "class:reproducible", "")
            rec.trace()


def reps_case(case, rec):
    """several repetitions are separate draws, and different seeds give different draws"""
    nm, n = case["model"], 24
    cols = {"d": [i % 2 for i in range(n)], "z": [(i // 2) % 2 for i in range(n)], "s": [(i // 2) % 2 for i in range(n)],
            "t": [(i // 2) % 2 for i in range(n)]}
    dat = data(nm, cols, case["seed"])
    seen = set()
    for sd in range(4):
        np.random.seed(1000 * case["seed"] + sd)
        m = build(nm, dat, n_folds=case["n_folds"], n_rep=3)
        reps = [frozenset(frozenset(map(int, te)) for _, te in rep) for rep in m.smpls]
        rec.expect(len(set(reps)) == 3, f"same-reps:{nm}", "two of three repetitions are the same partition")
        seen.add(tuple(reps))
        rec.state(nm, sd, case["n_folds"])
        rec.outcome(nm, key(m.smpls))
        rec.step()
        rec.trace()
    rec.expect(len(seen) == 4, f"same-seeds:{nm}", "two of four different seeds give the same splittings")


def cluster_reps_case(case, rec):
    """clustered draws: repetitions, cluster dimensions and seeds are separate draws"""
    import doubleml as dml

    ways, nf, g = case["ways"], case["n_folds"], 15
    r = np.random.RandomState(case["seed"])
    df = pd.DataFrame({"y": r.randn(g * g), "d": r.randn(g * g), "X1": r.randn(g * g), "c0": np.repeat(np.arange(g), g), "c1": np.tile(np.arange(g), g)})
    dat = dml.DoubleMLClusterData(df, "y", "d", cluster_cols=["c0", "c1"][:ways])
    seen, dims = set(), 0
    for sd in range(4):
        np.random.seed(1000 * case["seed"] + sd)
        m = dml.DoubleMLPLR(dat, lin(), lin(), n_folds=nf, n_rep=3)
        reps = [frozenset(frozenset(map(int, te)) for _, te in rep) for rep in m.smpls]
        rec.expect(len(set(reps)) == 3, f"same-reps:cluster{ways}", "two of three clustered repetitions are the same partition")
        seen.add(tuple(reps))
        if ways == 2:
            for rep in m.smpls_cluster:
                part = [frozenset(frozenset(map(int, te[j])) for _, te in rep) for j in range(2)]
                dims += part[0] == part[1]
        rec.state("cluster", ways, sd, nf)
        rec.outcome("cluster", ways, key(m.smpls))
        rec.step()
        rec.trace()
    rec.expect(dims == 0, "same-dims:cluster", "both cluster dimensions are split by the same draw")
    rec.expect(len(seen) == 4, f"same-seeds:cluster{ways}", "two of four different seeds give the same clustered splitting")


def nodraw_case(case, rec):
    nm = case["model"]
    n = 8
    cols = {"d": [i % 2 for i in range(n)], "z": [(i // 2) % 2 for i in range(n)], "s": [(i // 2) % 2 for i in range(n)],
            "t": [(i // 2) % 2 for i in range(n)]}
    dat = data(nm, cols, case["seed"])
    st = np.random.get_state()[1].copy()
    m = build(nm, dat, n_folds=2, draw_sample_splitting=False)
    rec.expect(np.array_equal(st, np.random.get_state()[1]), f"consumed:{nm}", "random stream used although no splitting was requested")
    for f in (lambda: m.smpls, lambda: m.fit()):
        CTL.reset(log=False)
        try:
            f()
            ok = False
        except Exception:
            ok = True
        rec.expect(ok and CTL.n_calls == 0, f"nodraw:{nm}", "a splitting exists although none was requested")
        rec.step()
    for bad in (1, 0, -1):
        try:
            build(nm, dat, n_folds=bad)
            rec.fail(f"badfolds:{nm}", f"n_folds={bad} accepted when drawing")
        except (ValueError, AssertionError):
            pass
    rec.state(nm)
    rec.trace()


def cluster_case(case, rec):
    """folds of clustered data: see C04 for the full property; here the drawn test parts are a partition of the data"""
    from doubleml.utils.resampling import DoubleMLClusterResampling

    n = case["n"]
    for pat in itertools.product(range(case["k"]), repeat=n):
        ks = len(set(pat))
        if ks < case["n_folds"]:
            continue
        np.random.seed(case["seed"])
        r = DoubleMLClusterResampling(n_folds=case["n_folds"], n_rep=2, n_obs=n, n_cluster_vars=1,
                                      cluster_vars=np.array(pat).reshape(-1, 1))
        smpls, cl = r.split_samples()
        rec.state(pat, case["n_folds"])
        for rep in smpls:
            tests = np.concatenate([te for _, te in rep])
            rec.expect(np.array_equal(np.sort(tests), np.arange(n)), "cluster:partition", f"{pat}")
            for tr, te in rep:
                rec.expect(np.array_equal(np.sort(tr), np.setdiff1d(np.arange(n), te)), "cluster:complement", f"{pat}")
            nc = [len(set(pat[i] for i in te)) for _, te in rep]
            rec.expect(max(nc) - min(nc) <= 1, "cluster:sizes", f"{pat}: clusters per fold {nc}")
        rec.outcome(key(smpls))
        rec.trace()


def chunks(it, k):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == k:
            yield buf
            buf = []
    if buf:
        yield buf


def cases(tier, seed):
    thor = tier == "thorough"
    for s in ([seed] if not thor else [seed, seed + 100]):
        for nm in ONE:
            ns = (5, 6, 7) if not thor else (5, 6, 7, 8)
            lv = 3 if nm in ("APO", "APOS") else 2
            for n in ns[: 3 if lv == 2 else 1] if not thor else ns[: 4 if lv == 2 else 2]:
                def ok(p):
                    return len(set(p)) >= 2 and (lv == 2 or sum(v == 1 for v in p) >= 1)
                pats = [(p,) for p in itertools.product(range(lv), repeat=n) if ok(p)]
                if nm in ("APO", "APOS"):
                    # these models need five observations at and off the level
                    pats = [((1,) * 5 + (0,) * 5 + p[0],) for p in pats]
                for ch in chunks(pats, 12):
                    yield dict(kind="model", model=nm, name=nm, cols=["d"], pats=ch, folds=[2, 3, 4], reps=[1, 2] if not thor else [1, 2, 3],
                               seed=s)
        for nm, cols in TWO.items():
            n = 4 if not thor else 5
            pats = []
            for p in itertools.product(range(4), repeat=n):
                a = tuple(v % 2 for v in p)
                b = tuple(v // 2 for v in p)
                pats.append(((0, 0, 1, 1) + a, (0, 1, 0, 1) + b))
            for ch in chunks(pats, 16):
                yield dict(kind="model", model=nm, name=nm, cols=list(cols), pats=ch, folds=[2, 3], reps=[2], seed=s)
        for nm in NONE:
            for n in range(4, 10):
                pat = (tuple(np.round(np.sin(np.arange(n)), 3).tolist()),)
                yield dict(kind="model", model=nm, name=nm, cols=["d"], pats=[pat], folds=list(range(2, n + 1)), reps=[1, 2, 3], seed=s)
        for n in range(2, 13):
            for nf in range(1, n + 2):
                for nr in (1, 2, 3):
                    yield dict(kind="class", n=n, n_folds=nf, n_rep=nr, alpha=0, seed=s)
        for n, nf, nr in ((57, 5, 12), (200, 10, 5), (1003, 20, 3), (30, 30, 2)):
            yield dict(kind="class", n=n, n_folds=nf, n_rep=nr, alpha=0, pats=[[i * i % 7 % 2 for i in range(n)], [i % 6 for i in range(n)], [int(i % 11 == 0) for i in range(n)],
                                                                              [int(i >= nf) for i in range(n)]], seed=s)
        for nm in list(ONE) + list(TWO) + NONE:
            n = 66
            a, b = [i * i % 7 % 2 for i in range(n)], [int(i % 5 > 2) for i in range(n)]
            pat = (a,) if nm in ONE else (a, b) if nm in TWO else (np.round(np.sin(np.arange(n)), 3).tolist(),)
            yield dict(kind="model", model=nm, name=nm, cols=["d"] if nm not in TWO else list(TWO[nm]), pats=[tuple(map(tuple, pat))], folds=[5, 7], reps=[1, 6], seed=s)
        for n in range(2, 7 if not thor else 8):
            for nf in range(2, n + 1):
                for alpha in (2, 3):
                    yield dict(kind="class", n=n, n_folds=nf, n_rep=2, alpha=alpha, seed=s)
        for nm in list(ONE) + list(TWO) + NONE:
            for nf in (2, 3):
                yield dict(kind="reps", model=nm, name=nm, n_folds=nf, seed=s)
            if nm not in ("APO", "APOS"):
                yield dict(kind="nodraw", model=nm, name=nm, seed=s)
        for ways in (1, 2):
            for nf in (3, 5):
                yield dict(kind="creps", ways=ways, name=f"cluster{ways}", n_folds=nf, seed=s)
        for n in range(3, 7):
            for nf in (2, 3):
                yield dict(kind="cluster", n=n, k=min(n, 4), n_folds=nf, seed=s)


if __name__ == "__main__":
    Check("C02", case_fn, cases, rule="model classes x every group pattern of small samples (two groups: 2^n; three levels: 3^n; pairs of binary "
          "variables: 4^n on top of one observation per cell) x folds 2-4 x repetitions 1-3; resampling classes for every n<=12, every "
          "number of folds and every pattern of up to 3 groups; each draw replayed, redrawn and redrawn after a user splitting",
          assumptions=["random draws: a fixed seed per case (the statement must hold for every draw; the draw itself is scikit-learn's "
                       "shuffle)"]).main()
