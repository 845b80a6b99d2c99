"""C09 faults: a learner failure or a non-finite prediction is injected at every learner call of a fit, on the real objects; the
error must surface, nothing new may be reported, and the next fit must equal that of an object that never saw the fault."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from checks.C08 import Clustered, Comp, Single
from mc import observe as O
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from mc.catalog import catalog, idmap, smpls_from_labels
from mc.core import Check, close
from mc.spy import CTL, InjectedFault

NF = {"nan": (np.nan, False), "inf": (np.inf, "first"), "-inf": (-np.inf, "mid"), "last": (np.nan, True), "lastinf": (np.inf, True)}


def subject(name, seed, n_rep):
    if name.startswith("CL-"):
        return Clustered(name, seed)
    if name.startswith(("APOS", "QTE")):
        return Comp(name, seed)
    S = Single(catalog(2)[name], seed)
    return S


def arm(kind, at):
    CTL.armed = True
    CTL.n_calls = 0
    CTL.fault_at = CTL.nan_at = None
    CTL.nan_void = False
    if kind == "raise":
        CTL.fault_at = set(at)
    elif kind is not None:
        CTL.nan_at = set(at)
        CTL.nan_value, CTL.nan_last = NF[kind]


def disarm():
    CTL.armed = False
    CTL.fault_at = CTL.nan_at = None


def coef_of(m):
    c, s = m.coef, m.se
    return (None if c is None else np.array(c, dtype=float), None if s is None else np.array(s, dtype=float))


def faulty_fit(rec, S, m, kind, at, what, kw):
    """one fit with injected faults; returns False after recording a violation, None when the fault was not reached"""
    old = coef_of(m)
    fw_old = m.framework
    calls = []
    arm(kind, at)
    try:
        m.fit(**kw)
        err = None
    except Exception as e:
        err = e
    reached = any(a < CTL.n_calls for a in at) and (kind == "raise" or (is_predict(S, at, kw) and not CTL.nan_void))
    disarm()
    rec.step()
    if not reached:
        if err is not None:
            raise err
        return None
    tag = "raise" if kind == "raise" else "nonfinite"
    if err is None:
        rec.fail(f"swallowed:{tag}:{S.name}", f"{what}: the fit returned a result although {'the learner raised' if kind == 'raise' else 'predictions were not finite'}")
        return False
    if kind == "raise" and not isinstance(err, InjectedFault):
        rec.fail(f"replaced:{S.name}", f"{what}: the learner's error surfaced as {type(err).__name__}: {err}")
        return False
    new = coef_of(m)
    for a, b, nm in zip(old, new, ("coef", "se")):
        if b is not None and not np.isnan(b).all() and not (a is not None and close(a, b)):
            rec.fail(f"partial:{S.name}", f"{what}: the failed fit left {nm} = {b} (before {a})")
            return False
    if m.framework is not None and m.framework is not fw_old:
        rec.fail(f"framework:{S.name}", f"{what}: the failed fit left a result framework")
        return False
    return True


PRED = {}


def is_predict(S, at, kw):
    k = (S.name, tuple(sorted(kw)))
    return any(PRED[k][a] for a in at if a < len(PRED[k]))


def count_calls(S, kw):
    """kinds of the learner calls of one undisturbed fit"""
    kinds = []
    orig = CTL.call

    def call(kind):
        kinds.append(kind)
        return orig(kind)

    CTL.call = call
    try:
        m = S.fresh()
        arm(None, ())
        m.fit(**kw)
    finally:
        del CTL.call
    disarm()
    PRED[(S.name, tuple(sorted(kw)))] = [k != "fit" for k in kinds]
    return kinds, S.observe(m), m


def fits_case(case, rec):
    S = subject(case["cfg"], case["seed"], 2)
    CTL.reset(log=False)
    kw = dict(case["kw"])
    kinds, want, ref = count_calls(S, kw)
    n = len(kinds)
    lo, hi = case["part"]
    for i in range(n):
        if i % hi != lo or (i // hi) % case["thin"]:
            continue
        for kind in case["faults"]:
            if kind != "raise" and kinds[i] == "fit":
                continue
            for pre in case["pre"]:
                if pre == "fitted" and kind not in ("raise", "last") and not case["deep"]:
                    continue
                m = S.fresh()
                if pre == "fitted":
                    m.fit(**kw)
                    if hasattr(m, "bootstrap") and not S.name.startswith("CL-"):
                        np.random.seed(3)
                        m.bootstrap(n_rep_boot=3)
                what = f"{S.name}: {kind} at learner call {i} of {n} ({kinds[i]}), {pre} object"
                r = faulty_fit(rec, S, m, kind, (i,), what, kw)
                rec.state(S.name, i, kind, pre)
                rec.trace()
                if r is False:
                    break
                if r is None:
                    rec.note("not-reached")
                m.fit(**kw)
                d = O.diff(S.observe(m), want)
                if d:
                    rec.fail(f"retry:{S.name}:{d}", f"{what}: after the retry {d} differs from an undisturbed object")
                    break
            if rec.fails:
                return
        rec.outcome(S.name, i)


def pairs_case(case, rec):
    """two failing fits in a row (fault at call i, then at call j), then a good one"""
    S = subject(case["cfg"], case["seed"], 2)
    CTL.reset(log=False)
    kinds, want, _ = count_calls(S, {})
    n = len(kinds)
    for i, j in itertools.product(range(case["i"], n, case["stride"]), range(0, n, case["jstep"])):
        m = S.fresh()
        for kind, at in (("raise", i), ("raise" if (i + j) % 2 else "nan", j)):
            if kind == "nan" and kinds[at] == "fit":
                kind = "raise"
            if faulty_fit(rec, S, m, kind, (at,), f"{S.name}: faults at calls {i} then {j} of {n}", {}) is False:
                return
        m.fit()
        rec.trace()
        rec.state(S.name, "pair", i, j)
        d = O.diff(S.observe(m), want)
        if d:
            rec.fail(f"retry2:{S.name}:{d}", f"{S.name}: faults at calls {i} then {j}: after the retry {d} differs")
            return


def aux_case(case, rec):
    """faults inside operations that refit internally (benchmark) or tune: the fitted model stays usable"""
    S = subject(case["cfg"], case["seed"], 2)
    CTL.reset(log=False)
    op = case["op"]

    def run(m):
        if op == "benchmark":
            m.sensitivity_benchmark(["X2"])
        elif op == "contrast-benchmark":
            m.sensitivity_benchmark(["X2"])
        else:
            np.random.seed(3)
            S.tune(m)

    m = S.fresh()
    disarm()
    m.fit()
    before = S.observe(m)
    arm(None, ())
    run(m)
    n = CTL.n_calls
    disarm()
    want = S.fresh()
    if op == "tune":
        np.random.seed(3)
        S.tune(want)
    want.fit()
    want = S.observe(want)
    for i in range(n):
        if op == "tune" and i % case["step"]:
            continue
        m = S.fresh()
        m.fit()
        arm("raise", (i,) if op != "tune" else range(i, n))
        try:
            run(m)
            err = None
        except Exception as e:
            err = e
        disarm()
        rec.step()
        rec.trace()
        rec.state(S.name, op, i)
        what = f"{S.name}: learner failure at call {i} of {n} of {op}"
        if op != "tune":
            if not isinstance(err, InjectedFault):
                rec.fail(f"aux-swallowed:{S.name}:{op}", f"{what}: {'no error' if err is None else repr(err)}")
                return
            d = O.diff(S.observe(m), before)
            if d:
                rec.fail(f"aux-changed:{S.name}:{op}:{d}", f"{what} changed {d} of the fitted model")
                return
        elif err is None:
            rec.note("tune-survived")  # scikit-learn scores failing candidates as missing
        if op == "tune":
            np.random.seed(3)
            S.tune(m)
        m.fit()
        d = O.diff(S.observe(m), want)
        if d:
            rec.fail(f"aux-retry:{S.name}:{op}:{d}", f"{what}: afterwards {d} differs from an undisturbed object")
            return


class _Lab:
    """predictions are the class labels zero and one, except at row `dev`, where they are `val`"""

    def labels(self, X):
        rows = CTL.rows(X)
        return np.array([self.val if r == self.dev else float(r % 2 if self.pattern == "mixed" else self.pattern == "ones") for r in rows])


class LabReg(_Lab, RegressorMixin, BaseEstimator):
    def __init__(self, pattern="mixed", dev=None, val=0.5):
        self.pattern, self.dev, self.val = pattern, dev, val

    def fit(self, X, y):
        return self

    def predict(self, X):
        return self.labels(X)


class LabClf(_Lab, ClassifierMixin, BaseEstimator):
    def __init__(self, pattern="mixed", dev=None, val=0.5):
        self.pattern, self.dev, self.val = pattern, dev, val

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        return self.labels(X)

    def predict_proba(self, X):
        p = self.labels(X)
        return np.column_stack((1.0 - p, p))


def labels_case(case, rec):
    """learners that predict class labels for a binary variable are rejected, however large the sample; a single probability is not a label"""
    cfg = catalog(2)[case["cfg"]]
    arg = case["arg"]
    df = cfg.frame(case["seed"], per_cell=cfg.per_cell * case["mult"])
    smpls = [smpls_from_labels(df.block, l) for l in ([0, 1, 0, 1], [0, 0, 1, 1])]
    n = len(df)
    CTL.reset(idmap(df), log=False)
    devs = [None, 0, n // 2, n - 1]
    for cls, pattern, dev in itertools.product((LabReg, LabClf) if case["arg"] == "ml_m" else (LabClf, LabReg), ("mixed", "ones", "zeros"), devs):
        if dev is not None and (arg == "ml_m" or pattern != "mixed") and cls is LabClf:
            continue
        learners = dict(cfg.learners())
        learners[arg] = cls(pattern, dev, 0.5)
        m = cfg.build(df, n_rep=2, learners=learners)
        m.set_sample_splitting(smpls)
        try:
            m.fit()
            err = None
        except Exception as e:
            err = e
        rec.step()
        rec.trace()
        rec.state(cfg.name, n, cls.__name__, pattern, dev)
        what = f"{cfg.name}, {n} observations: {arg} = {cls.__name__} predicting {pattern} labels" + ("" if dev is None else f" except for observation {dev}")
        if dev is None:
            rec.expect(isinstance(err, ValueError), f"labels:{cfg.name}", f"{what}: {'accepted' if err is None else repr(err)}")
            rec.expect(m.coef is None or np.isnan(m.coef).all(), f"labels-estimate:{cfg.name}", f"{what}: estimate {m.coef}")
        elif pattern == "mixed":
            rec.expect(err is None, f"labels-rejected:{cfg.name}", f"{what}: {err!r}")


def case_fn(case, rec):
    {"fit": fits_case, "pair": pairs_case, "aux": aux_case, "labels": labels_case}[case["kind"]](case, rec)


COMPS = ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]
CLUST = ["CL-PLR1", "CL-PLR2", "CL-PLIV2", "CL-IRM1"]


def cases(tier, seed):
    thor = tier == "thorough"
    cat = catalog(2)
    faults = ["raise", "nan", "inf", "-inf", "last"] + (["lastinf"] if thor else [])
    for nm, arg in (("PLR-bin", "ml_m"), ("IRM-biny", "ml_g"), ("IIVM-biny", "ml_g"), ("APO-1-biny", "ml_g")):
        for mult in (1, 3, 20):
            yield dict(kind="labels", cfg=nm, arg=arg, mult=mult, name=f"labels/{nm}/{mult}", seed=seed)
    for nm in COMPS + CLUST + list(cat):
        parts = 6 if nm in COMPS or (nm in cat and cat[nm].nested) else 2
        for p in range(parts):
            yield dict(kind="fit", cfg=nm, name=nm, kw={}, part=(p, parts), deep=thor, thin=3 if nm in COMPS[1:] and not thor else 1, faults=faults if thor or nm not in COMPS else ["raise", "nan", "last"],
                       pre=["new", "fitted"] if thor or nm not in COMPS + CLUST else ["new"], seed=seed)
        if thor or nm in ("PLR-po", "IRM-ate", "PLIV-2z", "SSM-mar", "DID-obs", "APO-1", "PQ-1"):
            yield dict(kind="fit", cfg=nm, name=nm, kw=dict(store_models=True, store_predictions=False), part=(0, 1), deep=thor, thin=1, faults=["raise", "last"], pre=["new"], seed=seed)
        if nm not in COMPS + CLUST and (thor or nm in ("PLR-po", "PLR-2d", "IRM-ate", "IIVM", "DIDCS-exp", "SSM-mar")):
            for i in range(8):
                yield dict(kind="pair", cfg=nm, name=nm, i=i, stride=8, jstep=1 if thor else 3, seed=seed)
        if nm in cat and cat[nm].sens and (thor or nm in ("PLR-po", "PLR-2d", "IRM-ate", "IRM-w", "APO-1", "DID-obs", "DIDCS-exp")):
            yield dict(kind="aux", op="benchmark", cfg=nm, name=nm, seed=seed)
        if nm == "APOS":
            yield dict(kind="aux", op="benchmark", cfg=nm, name=nm, seed=seed)
        if nm in cat and cat[nm].tune and (thor or nm in ("PLR-po", "PLR-2d", "IRM-ate", "PLIV-po")):
            yield dict(kind="aux", op="tune", cfg=nm, name=nm, step=1 if thor else 5, seed=seed)


if __name__ == "__main__":
    Check("C09", case_fn, cases, rule="every learner call of a fit x {raise, NaN, +inf, a single -inf or NaN} x {new, fitted object}; pairs of failing fits; every "
          "call of benchmarks; suffixes of failing calls in tuning; followed by an undisturbed fit compared with a fresh object").main()
