"""C22 regression discontinuity: every combination of design, first-stage specification, kernel, bandwidth, cutoff, iterations, folds, repetitions
and input types, and every history of repeated fits, on small designs; every learner call of every run is checked (rows, targets, kernel weights,
left/right evaluation, cross-fitting), and the reported numbers are those of rdrobust applied to the outcome adjusted by the logged predictions."""
import contextlib
import functools
import io
import itertools
import math
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc import observe as O
from mc.catalog import rng_for
from mc.core import Check, close
from mc.spy import CTL, clf, lin

Z = {0.95: 1.959963984540054, 0.8: 1.2815515655446004, 0.9: 1.6448536269514722, 0.99: 2.5758293035489004}
SPECS = ("cutoff", "cutoff and score", "interacted cutoff and score")


def own_kernel(x, h):
    return np.where(np.abs(x) < h, (1 - np.abs(x / h)) ** 2, 0.0)


KERN = {"uniform": lambda u: (u <= 1) * 1.0, "triangular": lambda u: np.maximum(0.0, 1 - u), "epanechnikov": lambda u: np.where(u < 1, 0.75 * (1 - u**2), 0.0)}


def kernel(name, x, h):
    if callable(name):
        return name(x, h)
    return KERN[name.casefold()](np.abs(x) / h)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


# ------------------------------------------------------------------ designs
@functools.lru_cache(None)
def subseed(design, seed, n):
    """first design on which rdrobust alone (with its own bandwidth) is regular for every form of the outcome"""
    import rdrobust

    for k in range(60):
        ok = True
        for yt in ("f64", "int", "bin"):
            df = draw(design, yt, "f", seed, 0, n, k)
            for adj in (0, df.X1 - 0.5 * df.X2, 0.5 * (df.X1 - 0.5 * df.X2)):
                for fz in (None, df.d.values) if design != "sharp" else (None,):
                    for kern in ("uniform", "triangular", "epanechnikov"):
                        try:
                            with quiet():
                                res = rdrobust.rdrobust(y=(df.y - adj).values, x=df.s.values, c=0, fuzzy=fz, kernel=kern)
                            ok &= bool(res.bws.loc["h"].min() > 0.12 and np.isfinite(res.se.values).all())
                        except np.linalg.LinAlgError:
                            ok = False
                        if not ok:
                            break
        if ok:
            return k
    return 0


def frame(design, ytype, dtype, seed, cut, n=56):
    return draw(design, ytype, dtype, seed, cut, n, subseed(design, seed, n))


def draw(design, ytype, dtype, seed, cut, n, k):
    import pandas as pd

    r = rng_for(seed, "rd", design, n, k) if k else rng_for(seed, "rd", design, n)
    s = np.sort(np.concatenate([-r.rand(n // 2) - 0.01, r.rand(n - n // 2) + 0.01]))
    if n % 2:
        # observations exactly at the cutoff, repeated values of the score
        s[n // 2 : n // 2 + 2] = 0.0
        s[-3], s[2] = s[-4], s[3]
    p = r.permutation(n)
    s = s[p]
    x = r.randn(n, 2)
    T = s >= 0
    u = r.rand(n)
    comp = {"sharp": T, "fuzzy": np.where(u < 0.15, ~T, T), "left": T & (u < 0.75), "right": T | (u < 0.2)}[design].astype(float)
    y = 0.8 * comp + 0.7 * s + x[:, 0] - 0.5 * x[:, 1] + 0.4 * r.randn(n)
    if ytype == "int":
        y = np.round(3 * y).astype(int)
    elif ytype == "bin":
        y = (y > np.median(y)).astype(int)
    elif ytype == "f32":
        y = y.astype(np.float32)
    d = comp.astype({"f": float, "i": int, "b": bool}[dtype])
    return pd.DataFrame(dict(y=y, d=d, s=s + cut, X1=np.round(x[:, 0] + 1e-4 * np.arange(n), 8), X2=x[:, 1]))


def build(df, c, cut):
    import doubleml as dml
    from doubleml.rdd import RDFlex

    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["X1", "X2"], s_col="s")
    g = clf("ml_g", 1.0) if c["ylearn"] == "clf" else lin("ml_g", 1.0)
    kw = dict(c.get("kw", {}))
    np.random.seed(11)
    with quiet():
        return RDFlex(data, g, clf("ml_m", 0.7) if c["fuzzy"] else None, fuzzy=c["fuzzy"], cutoff=cut, n_folds=c["folds"], n_rep=c["reps"], h_fs=c["hfs"],
                      fs_specification=c["spec"], fs_kernel=c["kernel"], **kw)


# ------------------------------------------------------------------ the learner calls of one fit
def stages(rec, key, what, c, df, cut, events, n_iter):
    """checks every learner call; adjusted outcome and treatment per repetition and iteration, or None"""
    n, K, R = len(df), c["folds"], c["reps"]
    score = df.s.to_numpy() - cut
    T = (score >= 0).astype(float)
    X = df[["X1", "X2"]].to_numpy()
    zero, one = np.zeros(n), np.ones(n)
    Z = {"cutoff": [T], "cutoff and score": [T, score], "interacted cutoff and score": [T, T * score, score]}[c["spec"]]
    right = [one] + [zero] * (len(Z) - 1)
    left = [zero] * len(Z)
    full = {"fit": np.column_stack(Z + [X]), "L": np.column_stack(left + [X]), "R": np.column_stack(right + [X])}
    target = {"ml_g": df.y.to_numpy().astype(float), "ml_m": df.d.to_numpy().astype(float)}
    tags = ["ml_g", "ml_m"] if c["fuzzy"] else ["ml_g"]
    adj, weights, split = {}, {}, {}
    for tag in tags:
        fits = [e for e in events if e["kind"] == "fit" and e["tag"] == tag]
        if len(fits) != K * R * n_iter:
            rec.fail(f"{key}:calls", f"{what}: {len(fits)} fits of {tag}, expected {K * R * n_iter}")
            return None
        preds = {}
        for e in events:
            if e["kind"] == "predict" and e["tag"] == tag:
                preds.setdefault(e["fit_id"], []).append(e)
        for r in range(R):
            for it in range(n_iter):
                L, Rt = np.full(n, np.nan), np.full(n, np.nan)
                w = np.full(n, np.nan)
                sp = []
                for e in fits[(r * n_iter + it) * K : (r * n_iter + it + 1) * K]:
                    rec.step()
                    rows = list(e["rows"])
                    if e["w"] is None or not close(e["y"], target[tag][rows]) or not close(e["X"], full["fit"][rows]):
                        rec.fail(f"{key}:fit", f"{what}: a fit of {tag} does not use its target and the {c['spec']} features of its training rows")
                        return None
                    got = {}
                    for p in preds.get(e["fit_id"], []):
                        pr = list(p["rows"])
                        for side in ("L", "R"):
                            if close(p["X"], full[side][pr]):
                                got[side] = p
                    if set(got) != {"L", "R"} or got["L"]["rows"] != got["R"]["rows"]:
                        rec.fail(f"{key}:sides", f"{what}: {tag} is not evaluated at both sides of the cutoff for the same rows")
                        return None
                    te = list(got["L"]["rows"])
                    # inside the bandwidth no own predictions; the weights of the training rows are checked below
                    if set(te) & set(rows) or len(set(rows)) != len(rows) or set(te) | set(rows) != set(range(n)):
                        rec.fail(f"{key}:cross", f"{what}: {tag} is trained on rows it predicts, or leaves rows out")
                        return None
                    if not np.isnan(L[te]).all():
                        rec.fail(f"{key}:cross", f"{what}: rows are predicted twice")
                        return None
                    L[te], Rt[te] = got["L"]["out"], got["R"]["out"]
                    for i, v in zip(rows, e["w"]):
                        if not (np.isnan(w[i]) or w[i] == v):
                            rec.fail(f"{key}:weights", f"{what}: row {i} has different weights in one iteration")
                            return None
                        w[i] = v
                    sp.append(frozenset(te))
                if np.isnan(L).any():
                    rec.fail(f"{key}:cross", f"{what}: some rows are never predicted")
                    return None
                # the same splitting in all iterations and for both functions
                if split.setdefault(r, set(sp)) != set(sp):
                    rec.fail(f"{key}:cross", f"{what}: the splitting of a repetition changes between iterations or functions")
                    return None
                adj[tag, r, it] = target[tag] - (L + Rt) / 2
                weights[tag, r, it] = w
    return adj, weights, split


def stratified(split, d, K):
    for parts in split.values():
        for v in (0, 1):
            cnt = [int(np.sum(d[list(p)] == v)) for p in parts]
            if max(cnt) - min(cnt) > 1:
                return False
    return True


def check_fit(rec, key, what, c, df, cut, m, events, n_iter):
    import rdrobust as rd

    st = stages(rec, key, what, c, df, cut, events, n_iter)
    if st is None:
        return False
    adj, weights, split = st
    if not stratified(split, df.d.to_numpy(), c["folds"]):
        rec.fail(f"{key}:strata", f"{what}: the folds are not stratified by the treatment")
        return False
    n, R = len(df), c["reps"]
    score = df.s.to_numpy() - cut
    y, d = df.y.to_numpy(), df.d.to_numpy()
    kw = dict(c.get("kw", {}))
    res, hs = [], []
    with quiet():
        h0 = c["hfs"] if c["hfs"] is not None else float(np.max(rd.rdbwselect(y=y, x=score, fuzzy=d if c["fuzzy"] else None).bws.values))
        if not close(m.h_fs, h0):
            rec.fail(f"{key}:h_fs", f"{what}: first-stage bandwidth {m.h_fs}, expected {h0}")
            return False
        for r in range(R):
            h = h0
            hb = dict(h=None, b=None)
            for it in range(n_iter):
                want = kernel(c["kernel"], score, h)
                for tag in ("ml_g", "ml_m") if c["fuzzy"] else ("ml_g",):
                    if not close(weights[tag, r, it], want):
                        rec.fail(f"{key}:weights", f"{what}: iteration {it} of repetition {r}: the weights of {tag} are not those of the kernel with bandwidth {h}")
                        return False
                f = adj["ml_m", r, it] if c["fuzzy"] else None
                if it < n_iter - 1:
                    e = rd.rdrobust(y=adj["ml_g", r, it], x=score, fuzzy=f, **kw)
                    hb = dict(h=e.bws.loc["h"].max(), b=e.bws.loc["b"].max())
                    h = hb["h"]
            e = rd.rdrobust(y=adj["ml_g", r, it], x=score, fuzzy=f, **hb, **kw)
            res.append(e)
            hs.append(float(e.bws.loc["h"].max()))
    coef = np.column_stack([e.coef.values.flatten() for e in res])
    se = np.column_stack([e.se.values.flatten() for e in res])
    ci = np.stack([e.ci.values for e in res], axis=2)
    N = np.array([np.sum(e.N_h) for e in res])
    th = np.median(coef, 1)
    want = {"all_coef": coef, "all_se": se, "coef": th, "se": np.sqrt(np.median(se**2 + (coef - th[:, None]) ** 2 / N, axis=1)), "ci": np.median(ci, axis=2),
            "h": np.array(hs)}
    want["t_stat"] = th / want["se"]
    for k, v in want.items():
        g = np.asarray(getattr(m, k), dtype=float)
        if not close(g, v, rtol=1e-6):
            rec.fail(f"{key}:{k}", f"{what}: {k} is {g.tolist()}, expected {np.asarray(v).tolist()}")
            return False
    for level, z in Z.items():
        ll = m.confint(level=level)
        w2 = np.median(np.stack((coef - z * se, coef + z * se), axis=1), axis=2)
        if not close(ll.to_numpy(), w2, rtol=1e-6) or list(ll.columns) != [f"{50 * (1 - level):.1f} %", f"{50 * (1 + level):.1f} %"]:
            rec.fail(f"{key}:confint", f"{what}: confint(level={level}) {ll.to_numpy().tolist()} {list(ll.columns)}, expected {w2.tolist()}")
            return False
    pv = np.array([math.erfc(abs(t) / math.sqrt(2)) for t in want["t_stat"]])
    if not close(m.pval, pv, rtol=1e-6, atol=1e-12):
        rec.fail(f"{key}:pval", f"{what}: p-values {m.pval}, expected {pv}")
        return False
    return True


def view(m):
    out = {k: O.snap(getattr(m, k)) for k in ("coef", "se", "ci", "all_coef", "all_se", "h", "h_fs", "w", "n_rep", "n_folds", "fuzzy", "cutoff", "fs_kernel")}
    if m.coef is not None:
        out["t"], out["p"] = O.snap(m.t_stat), O.snap(m.pval)
        out["ci9"] = O.snap(m.confint(level=0.9))
    out["str"] = str(m)
    return out


def from_rdrobust(e):
    return "rdrobust" in traceback.extract_tb(e.__traceback__)[-1].filename or any(f"{os.sep}rdrobust{os.sep}" in f.filename for f in traceback.extract_tb(e.__traceback__))


def grid_case(case, rec):
    cells = singular = 0
    for c in grid(case):
        cut = c["cut"]
        df = frame(c["design"], c["ytype"], c["dtype"], case["seed"], cut, c.get("n", 56))
        ids = {round(float(v), 10): i for i, v in enumerate(df.X1)}
        keep = df.copy()
        what = ", ".join(f"{k}={v if not callable(v) else 'callable'}" for k, v in c.items())
        key = f"rd:{'fuzzy' if c['fuzzy'] else 'sharp'}:{c['ytype']}"
        m = build(df, c, cut)
        CTL.reset(ids)
        cells += 1
        try:
            with quiet():
                m.fit(n_iterations=c["iters"])
        except np.linalg.LinAlgError as e:
            # rdrobust found no invertible local polynomial within its own bandwidth on this small design; the cell is not decided
            if not from_rdrobust(e):
                raise
            rec.note("not decided: rdrobust singular")
            singular += 1
            continue
        rec.trace()
        rec.state(what)
        ev = CTL.events
        CTL.reset(None, log=False)
        if not check_fit(rec, key, what, c, df, cut, m, ev, c["iters"]):
            return
        rec.expect(df.equals(keep), f"{key}:frame", f"{what}: the data were modified")
        rec.outcome(what)
    rec.expect(singular <= cells // 2, "rd:singular", f"{singular} of {cells} designs could not be fitted")


def grid(case):
    p = case["axes"]
    keys = list(p)
    for vals in itertools.product(*[p[k] for k in keys]):
        c = dict(zip(keys, vals))
        dsg, yt, dt, yl = c.pop("kind")
        c.update(design=dsg, ytype=yt, dtype=dt, ylearn=yl, fuzzy=case["fuzzy"])
        yield c


def types_case(case, rec):
    """the stored type of outcome and treatment does not matter"""
    base = None
    for yt, dt in itertools.product(("float", "int", "f64obj"), ("f", "i", "b")):
        df = frame(case["design"], "int" if case["y"] == "int" else "bin", dt, case["seed"], 0)
        df["y"] = df.y.astype({"float": float, "int": int, "f64obj": bool if case["y"] == "bin" and case["lrn"] == "clf" else float}[yt])
        c = dict(design=case["design"], fuzzy=case["fuzzy"], folds=2, reps=2, hfs=None, spec=case["spec"], kernel="triangular", ylearn=case["lrn"])
        CTL.reset(None, log=False)
        m = build(df, c, 0)
        with quiet():
            m.fit(n_iterations=case["iters"])
        v = view(m)
        rec.step()
        rec.trace()
        rec.state("types", case["design"], yt, dt, case["y"])
        if base is None:
            base = v
        else:
            dd = O.diff(v, base)
            rec.expect(not dd, "types", f"{case}: outcome stored as {yt}, treatment as {dt}: {dd}")
    rec.outcome("types")


def hist_case(case, rec):
    """repeated fits and read-only operations: the object always reports its last fit"""
    c = case["c"]
    df = frame(c["design"], c["ytype"], "f", case["seed"], 0)
    CTL.reset(None, log=False)
    want = {}
    for k in (1, 2, 3):
        m = build(df, c, 0)
        with quiet():
            m.fit(n_iterations=k)
        want[k] = view(m)
    ops = [1, 2, 3, "confint", "str", "agg", "bad"]
    for seq in itertools.product(ops, repeat=case["len"]):
        if seq[0] != case["lead"] or not any(isinstance(o, int) for o in seq):
            continue
        m = build(df, c, 0)
        last = None
        for o in seq:
            rec.step()
            with quiet():
                if isinstance(o, int):
                    m.fit(n_iterations=o)
                    last = o
                elif last is None and o in ("confint", "agg"):
                    continue
                elif o == "confint":
                    m.confint(level=0.8)
                elif o == "str":
                    str(m)
                elif o == "agg":
                    m.aggregate_over_splits()
                else:
                    try:
                        m.fit(n_iterations=0)
                        rec.fail("hist:bad", "fit(n_iterations=0) accepted")
                    except ValueError:
                        pass
            if last is not None:
                dd = O.diff(view(m), want[last])
                if dd:
                    rec.fail("hist", f"after {seq[:seq.index(o) + 1]}: differs from a fresh fit(n_iterations={last}) at {dd}")
                    return
        rec.trace()
        rec.state("hist", c["fuzzy"], c["reps"], last)
    rec.outcome("hist")


def global_case(case, rec):
    """the global learners ignore sample weights: every weight vector over a small alphabet"""
    from doubleml.utils import GlobalClassifier, GlobalRegressor

    r = rng_for(case["seed"], "global")
    n = 5
    X = r.randn(n, 2)
    Xn = r.randn(3, 2)
    CTL.reset(None, log=True)
    for y in ([0, 1, 0, 1, 1], [1, 0, 0, 0, 1]) if case["clf"] else ([0.3, -1.0, 2.0, 0.1, 0.7], [1.0, 1.0, 2.0, 2.0, 5.0]):
        y = np.array(y)
        base = (clf if case["clf"] else lin)("b", 1.0)
        ref = (clf if case["clf"] else lin)("b", 1.0).fit(X, y)
        for w in itertools.product((0.0, 0.5, 2.0), repeat=n):
            CTL.events.clear()
            g = (GlobalClassifier if case["clf"] else GlobalRegressor)(base)
            out = g.fit(X, y, sample_weight=np.array(w))
            rec.step()
            rec.trace()
            rec.expect(out is g, "global:self", "fit does not return the learner")
            ok = close(g.predict(Xn), ref.predict(Xn))
            if case["clf"]:
                ok = ok and close(g.predict_proba(Xn), ref.predict_proba(Xn)) and list(g.classes_) == list(ref.classes_)
            fits = [e for e in CTL.events if e["kind"] == "fit"]
            ok = ok and len(fits) == 1 and (fits[0]["w"] is None or np.ptp(fits[0]["w"]) == 0)
            rec.expect(ok and not hasattr(base, "coef_"), "global:weights", f"weights {w}: the global learner depends on them (or fits the learner passed)")
            rec.state("global", case["clf"], w)
        for bad in (np.ones(n - 1), ["a"] * n):
            try:
                (GlobalClassifier if case["clf"] else GlobalRegressor)(base).fit(X, y, sample_weight=bad)
                rec.fail("global:bad", "invalid sample weights accepted")
            except ValueError:
                pass
    rec.outcome("global")


def case_fn(case, rec):
    {"grid": grid_case, "types": types_case, "hist": hist_case, "global": global_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed, seed + 7]:
        kinds = {False: [("sharp", "f64", "f", "reg"), ("sharp", "int", "i", "reg"), ("sharp", "bin", "i", "clf"), ("sharp", "f64", "b", "reg")],
                 True: [("fuzzy", "f64", "f", "reg"), ("left", "int", "i", "reg"), ("right", "bin", "i", "clf"), ("fuzzy", "bin", "b", "clf"), ("fuzzy", "f32", "i", "reg")]}
        for fuzzy in (False, True):
            for kind in kinds[fuzzy]:
                for reps in (1, 3) if not thor else (1, 2, 3, 4):
                    for spec in SPECS:
                        yield dict(kind="grid", name="grid", fuzzy=fuzzy, seed=s, axes=dict(
                            kind=[kind], spec=[spec], kernel=["uniform", "triangular", "Epanechnikov", own_kernel], iters=[1, 2, 3] if not thor else [1, 2, 3, 4],
                            hfs=[None, 0.7] if not thor else [None, 0.5, 0.8, 5.0], cut=[0, 0.25] if not thor else [0, 0.25, 1, -2.5], folds=[2] if not thor else [2, 3, 5],
                            reps=[reps]))
            # observations at the cutoff and repeated scores; larger samples, the default number of folds, more repetitions
            for n, K, R in ((57, 2, 2), (131, 5, 4), (81, 10, 1)):
                yield dict(kind="grid", name="size", fuzzy=fuzzy, seed=s, axes=dict(kind=kinds[fuzzy][:3], spec=list(SPECS), kernel=["uniform", "triangular"], iters=[1, 2, 4],
                                                                                 hfs=[None, 0.6], cut=[0, -0.5], folds=[K], reps=[R], n=[n]))
            for kw in (dict(kernel="uni"), dict(p=2), dict(level=90), dict(bwselect="msetwo"), dict(bwselect="cerrd"), dict(vce="hc1")):
                yield dict(kind="grid", name="kwargs", fuzzy=fuzzy, seed=s, axes=dict(kind=kinds[fuzzy][:1], spec=list(SPECS), kernel=["triangular"], iters=[1, 2], hfs=[None],
                                                                                  cut=[0], folds=[3], reps=[2], kw=[kw]))
        for fuzzy, dsg in ((False, "sharp"), (True, "fuzzy"), (True, "left")):
            for y, lrn in (("int", "reg"), ("bin", "reg"), ("bin", "clf")):
                for spec in SPECS:
                    for it in (1, 2):
                        yield dict(kind="types", name="types", fuzzy=fuzzy, design=dsg, y=y, lrn=lrn, spec=spec, iters=it, seed=s)
        for fuzzy, dsg in ((False, "sharp"), (True, "fuzzy")):
            for reps in (1, 3):
                for hfs in (None, 0.7):
                    for lead in (1, 2, 3, "str", "bad"):
                        yield dict(kind="hist", name="hist", lead=lead, len=3 if not thor else 4, seed=s, c=dict(
                            design=dsg, ytype="f64", fuzzy=fuzzy, folds=2, reps=reps, hfs=hfs, spec="interacted cutoff and score", kernel="triangular", ylearn="reg"))
        for c in (False, True):
            yield dict(kind="global", name="global", clf=c, seed=s)


if __name__ == "__main__":
    Check("C22", case_fn, cases, rule="all combinations of design (sharp, fuzzy one- and two-sided), stored types, first-stage specification, kernel, first-stage bandwidth, "
          "cutoff, number of iterations, repetitions and folds on a small design, with rdrobust options; all histories of fits and read-only operations to depth 3; all sample "
          "weight vectors over {0, 0.5, 2}^5 for the global learners; every learner call checked, final numbers against rdrobust on the adjusted outcome",
          assumptions=["rdrobust is the oracle for the local polynomial step"]).main()
