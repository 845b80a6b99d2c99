"""C23 invalid configurations are rejected before any learner is fitted and valid ones are accepted: for every model class the full table of value
domains of every data role, of every learner slot, of every constructor option (singles and all pairs of options), of every argument of every
public operation before and after the fit; each configuration is executed on the real code with recording learners."""
import contextlib
import io
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from checks.C08 import Comp, Single
from checks.C22 import frame as rd_frame
from mc import observe as O
from mc.catalog import catalog, make_df, smpls_from_labels
from mc.core import Check
from mc.spy import CTL, SpyClf, SpyReg, clf, lin

nan, inf = float("nan"), float("inf")
QUANT = ("PQ", "LPQ", "CVaR")
GROUP = ("PLR", "PLIV", "IRM", "IIVM", "APO", "PQ", "LPQ", "CVaR", "SSM", "DID", "DIDCS")


def own_kde(u, weights):
    return np.array([float(np.mean(np.abs(u) < 1.0)) + 0.1])


def own_score(*a, **kw):
    raise AssertionError("never called")


# ------------------------------------------------------------------ learners that violate the interface
class NoFit:
    tag, lam = "nofit", 1.0
    _estimator_type = "regressor"

    def get_params(self, deep=True):
        return {}

    def set_params(self, **k):
        return self

    def predict(self, X):
        CTL.call("predict")
        return np.zeros(len(X))

    predict_proba = predict


class _Part:
    def __init__(self, **k):
        pass

    def fit(self, X, y, sample_weight=None):
        CTL.call("fit")
        return self


class NoSet(_Part):
    def get_params(self, deep=True):
        return {}

    def predict(self, X):
        return np.zeros(len(X))

    def predict_proba(self, X):
        return np.zeros((len(X), 2))


class NoGet(_Part):
    def set_params(self, **k):
        return self

    def predict(self, X):
        return np.zeros(len(X))

    def predict_proba(self, X):
        return np.zeros((len(X), 2))


class NoPred(_Part):
    def get_params(self, deep=True):
        return {}

    def set_params(self, **k):
        return self


# ------------------------------------------------------------------ subjects
class Subject:
    def __init__(self, name, seed):
        self.name, self.seed = name, seed
        self.group = name.split("-")[0].split("_")[0]
        if name in ("APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"):
            self.comp = Comp(name, seed)
            self.df = self.comp.df
            self.cfg = None
            self.treats, self.data_kw = ["d"], ({"z_cols": "z"} if "LPQ" in name else {})
            g = lin("ml_g", 1.0) if name in ("APOS", "QTE-CVaR") else clf("ml_g", 1.0)
            self.learners = dict(ml_g=g, ml_m=clf("ml_m", 2.0))
            self.opts = dict(treatment_levels=[2, 0, 1]) if self.group == "APOS" else dict(score=name.split("-")[1], quantiles=[0.4, 0.6])
        else:
            self.cfg = catalog(2)[name]
            self.df = self.cfg.frame(seed)
            self.treats, self.data_kw = list(self.cfg.treats), dict(self.cfg.data_kw)
            self.learners = self.cfg.learners()
            self.opts = dict(self.cfg.options(self.df))
        self.nested = self.cfg is None and self.group == "QTE" or bool(self.cfg is not None and self.cfg.nested)
        self.biny = "biny" in name

    def ctor(self):
        import doubleml as dml

        if self.group == "APOS":
            return dml.DoubleMLAPOS
        if self.group == "QTE":
            return dml.DoubleMLQTE
        return self.cfg.ctor()

    def xcols(self):
        return [c for c in self.df.columns if c.startswith("X")]

    def data(self, df=None, treats=None, **over):
        import doubleml as dml

        kw = dict(self.data_kw)
        kw.update(over)
        kw = {k: v for k, v in kw.items() if v is not None}
        return dml.DoubleMLData(self.df if df is None else df, "y", treats or self.treats, x_cols=self.xcols(), **kw)

    def smpls(self):
        return [smpls_from_labels(self.df.block, l) for l in ([0, 1, 0, 1], [0, 0, 1, 1])]

    def single(self):
        return self.comp if self.cfg is None else Single(self.cfg, self.seed)

    def run(self, data=None, learners=None, fit=True, **opts):
        """construct and fit; every option may be replaced; the splitting is drawn"""
        kw = dict(n_folds=2, n_rep=2)
        kw.update(self.opts)
        kw.update(opts)
        np.random.seed(5)
        m = self.ctor()(self.data() if data is None else data, **(self.learners if learners is None else learners), **kw)
        if kw.get("draw_sample_splitting") is False:
            m.set_sample_splitting(self.smpls()[: kw["n_rep"]])
        if fit:
            m.fit()
        return m


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def attempt(run):
    """('ok', result) or ('raised', exception); the number of learner calls"""
    CTL.reset(None, log=False)
    try:
        with quiet():
            r = run()
        return "ok", r, CTL.n_calls
    except Exception as e:  # noqa: BLE001 - what is raised is what is observed
        return "raised", e, CTL.n_calls


def decide(rec, key, what, valid, run, calls=0):
    st, r, n = attempt(run)
    rec.step()
    rec.trace()
    rec.state(key, what)
    if valid and st != "ok":
        rec.fail(f"{key}:rejected", f"{what}: a valid configuration is rejected with {type(r).__name__}: {str(r)[:150]}")
        return False
    if not valid and st == "ok":
        rec.fail(f"{key}:accepted", f"{what}: an invalid configuration is accepted")
        return False
    if not valid and n > calls:
        rec.fail(f"{key}:late", f"{what}: {n - calls} learner calls were made before the rejection ({type(r).__name__}: {str(r)[:100]})")
        return False
    rec.outcome(f"{key}|{'valid' if valid else 'invalid'}")
    return True


# ------------------------------------------------------------------ option tables
def opt_table(S):
    """option -> list of (label, value, valid)"""
    n = len(S.df)
    g = S.group
    ok = lambda *v: [(repr(x)[:40], x, True) for x in v]
    no = lambda *v: [(repr(x)[:40], x, False) for x in v]
    T = {"n_folds": ok(2, 3 if not S.biny else 2) + no(0, -1, 1.5, 2.0, "2", None, [2], n + 5),
         "n_rep": ok(2) + ([] if "wbar" in S.name else ok(1)) + no(0, -1, 1.0, "1", None, [1])}
    if g not in ("QTE", "APOS"):
        T["draw_sample_splitting"] = ok(True, False) + no(1, 0, "yes", None)
    T["score"] = [("own", S.opts["score"], True)] if "score" in S.opts else []
    T["score"] += no("nope", "", 5, None, ["ATE"])
    if g in ("APO", "APOS", "PQ", "LPQ", "CVaR", "DID", "DIDCS", "QTE"):
        T["score"] += [("callable", own_score, False)]
    if g not in ("PLR", "PLIV"):
        T["trimming_rule"] = ok("truncate") + no("discard", "", "Truncate", None, 1)
        T["trimming_threshold"] = ok(0.01, 0.1, 0.4999) + no(0.0, 0.5, -0.01, 0.7, 1, 0, "0.1", None, nan, inf)
    if g in ("DID", "DIDCS"):
        T["in_sample_normalization"] = ok(True, False) + no(1, 0, "True", None)
    elif g not in ("PLR", "PLIV"):
        T["normalize_ipw"] = ok(True, False) + no(1, 0, "True", None)
    if g in QUANT:
        T["quantile"] = ok(0.5, 0.3, 0.7) + no(0.0, 1.0, -0.1, 1.1, 1, 0, "0.5", None, nan, inf, [0.5])
        T["treatment"] = ok(0, 1) + no(2, -1, 1.0, "1", None, [1])
    if g in ("PQ", "LPQ", "QTE"):
        T["kde"] = ok(None) + [("callable", own_kde, True)] + no("gauss", 5)
    if g == "QTE":
        T["quantiles"] = ok(0.5, [0.3, 0.7], (0.5,), np.array([0.4, 0.6])) + no(0.0, 1.0, [0.5, 1.0], [-0.1, 0.5], [0.0, 0.5], 1.2, [0.5, nan], nan, ["a"], None)
    if g == "APO":
        T["treatment_level"] = ok(0, 1, 2, 1.0) + no(3, 0.5, -1, "1", None, nan)
    if g == "APOS":
        T["treatment_levels"] = ok([0, 1], [0, 1, 2], (2, 0), 1, np.array([0, 2])) + no([0, 3], 5, "1", None, ["0"], [0.5], [nan], [0, None])
    if g == "IIVM":
        T["subgroups"] = ok(None) + ok(*[{"always_takers": a, "never_takers": b} for a in (True, False) for b in (True, False)])
        T["subgroups"] += no("always_takers", {"always_takers": True}, {}, {"always_takers": True, "never_takers": True, "x": True}, ["always_takers", "never_takers"],
                             {"always_takers": 1, "never_takers": True}, {"always_takers": True, "never_takers": "no"}, {"always_takers": None, "never_takers": False}, True)
    if g in ("IRM", "APO", "APOS") and not callable(S.opts.get("score")):
        w = 0.5 + 0.1 * (np.arange(n) % 7)
        b = (np.arange(n) % 3 > 0).astype(float)
        bar = np.column_stack([w, w + 0.1])
        neg, nanw, infw = w.copy(), w.copy(), w.copy()
        neg[3], nanw[3], infw[3] = -0.1, nan, inf
        v = [("None", None, True), ("ones", np.ones(n), True), ("0/1", b, True)]
        i = [("list", list(w), False), ("short", w[:-1], False), ("long", np.append(w, 1.0), False), ("2d", w.reshape(-1, 1), False), ("negative", neg, False), ("zero", np.zeros(n), False),
             ("nan", nanw, False), ("inf", infw, False), ("text", "w", False), ("number", 1.0, False), ("no bar", {"weights": w}, False), ("empty dict", {}, False),
             ("extra key", {"weights": w, "weights_bar": bar, "x": w}, False), ("bar 1d", {"weights": w, "weights_bar": w}, False), ("bar wide", {"weights": w, "weights_bar": np.column_stack([bar, w])}, False),
             ("bar narrow", {"weights": w, "weights_bar": bar[:, :1]}, False), ("bar short", {"weights": w, "weights_bar": bar[:-1]}, False), ("dict short", {"weights": w[:-1], "weights_bar": bar}, False),
             ("dict negative", {"weights": neg, "weights_bar": bar}, False), ("bar negative", {"weights": w, "weights_bar": np.column_stack([w, neg])}, False),
             ("bar nan", {"weights": w, "weights_bar": np.column_stack([w, nanw])}, False), ("bar inf", {"weights": w, "weights_bar": np.column_stack([w, infw])}, False),
             ("dict zero", {"weights": np.zeros(n), "weights_bar": bar}, False), ("bar zero", {"weights": w, "weights_bar": 0 * bar}, False)]
        if S.opts.get("score") == "ATTE":
            i += [("graded", w, False), ("dict", {"weights": b, "weights_bar": bar}, False)]
        else:
            v += [("graded", w, True), ("dict", {"weights": w, "weights_bar": bar}, True)]
        T["weights"] = v + i
    return {k: v for k, v in T.items() if v}


def compatible(S, pick):
    """weights_bar has one column per repetition: with another number of repetitions the dictionaries change their validity"""
    if "weights" in pick and "n_rep" in pick and isinstance(pick["weights"], dict):
        return False
    if "quantile" in pick and "treatment" in pick:
        return pick["quantile"] in (0.5, 0.3, 0.7)
    return True


def option_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    T = opt_table(S)
    data = S.data()
    if case["mode"] == "single":
        for o, vals in T.items():
            for lab, v, valid in vals:
                if not compatible(S, {o: v, "n_rep": 2} if False else {o: v}):
                    continue
                if not decide(rec, f"option:{S.name}:{o}", f"{S.name}({o}={lab})", valid, lambda: S.run(data, **{o: v})):
                    break
        return
    for (o1, v1), (o2, v2) in itertools.combinations(T.items(), 2):
        for (l1, a, ok1), (l2, b, ok2) in itertools.product(v1, v2):
            if not compatible(S, {o1: a, o2: b}):
                continue
            if o1 == "n_folds" and o2 == "draw_sample_splitting" and b is False and ok1 is True and a != 2:
                continue  # the supplied splitting decides
            if b is False and o2 == "draw_sample_splitting" and o1 == "n_folds" and a == len(S.df) + 5:
                continue
            if "n_rep" in (o1, o2) and "wbar" in S.name and "weights" in (o1, o2):
                continue
            valid = ok1 and ok2
            if not decide(rec, f"options:{S.name}:{o1},{o2}", f"{S.name}({o1}={l1}, {o2}={l2})", valid, lambda: S.run(data, fit=not valid or case["fit"], **{o1: a, o2: b})):
                break


# ------------------------------------------------------------------ value domains of the data
def domains(v, rng):
    """name -> (values, is zero/one binary); v: a 0/1 array"""
    n = len(v)
    t = np.asarray(v, dtype=float) > 0
    out = {"0/1 float": (t * 1.0, True), "0/1 int": (t * 1, True), "bool": (t, True), "int8": (t.astype(np.int8), True), "1/2": (t + 1.0, False), "0/2": (t * 2.0, False),
           "-1/1": (t * 2.0 - 1, False), "0/0.5": (t * 0.5, False), "0/1/2": (np.where(np.arange(n) % 5 == 0, 2.0, t * 1.0), False), "0/0.5/1": (np.where(np.arange(n) % 5 == 0, 0.5, t * 1.0), False),
           "-1/0/1": (np.where(np.arange(n) % 5 == 0, -1.0, t * 1.0), False), "almost 0/1": (np.where(t, 1.0, 1e-7), False), "continuous": (t + 0.1 * rng.randn(n), False),
           "one other value": (np.where(np.arange(n) == n - 1, 2.0, t * 1.0), False), "integers": (t * 3 + np.arange(n) % 3, False)}
    return out


def data_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    g = S.group
    rng = np.random.RandomState(case["seed"])
    base = S.df
    key = f"data:{S.name}"
    one = lambda: S.data()
    if not decide(rec, key, f"{S.name} with its data", True, lambda: S.run(one())):
        return
    # --- the kind of object
    for lab, obj in (("a frame", base), ("an array", base[["y", "d", "X1"]].to_numpy()), ("None", None), ("a dictionary", {"y": base["y"]}), ("a text", "data"), ("a class", type(one()))):
        if lab == "None":
            f = lambda: S.ctor()(None, **S.learners, **{**dict(n_folds=2, n_rep=2), **S.opts})
        else:
            f = lambda o=obj: S.run(o)
        if not decide(rec, f"{key}:object", f"{S.name} on {lab}", False, f):
            break
    # --- treatment
    zero_one = g in ("IRM", "IIVM", "DID", "DIDCS", "PQ", "LPQ", "CVaR", "QTE", "SSM") or S.name == "PLR-bin"
    if zero_one:
        for lab, (v, ok) in domains(base["d"], rng).items():
            df = base.copy()
            df["d"] = v
            if ok and lab == "bool" and callable(S.opts.get("score")):
                continue
            if not decide(rec, f"{key}:treatment", f"{S.name}, treatment {lab}", ok, lambda: S.run(S.data(df))):
                break
    if g not in ("PLR", "PLIV", "SSM"):
        if not decide(rec, f"{key}:treatments", f"{S.name} with two treatments", False, lambda: S.run(S.data(treats=["d", "d2"]))):
            return
        df = base.copy()
        df["d2"] = 1.0 - base["d"]
        if not decide(rec, f"{key}:treatments", f"{S.name} with two binary treatments", False, lambda: S.run(S.data(df, treats=["d", "d2"]))):
            return
    # --- instrument
    if g in ("IIVM", "LPQ") or S.name == "QTE-LPQ":
        for lab, (v, ok) in domains(base["z"], rng).items():
            df = base.copy()
            df["z"] = v
            if ok and lab == "bool" and callable(S.opts.get("score")):
                continue
            if not decide(rec, f"{key}:instrument", f"{S.name}, instrument {lab}", ok, lambda: S.run(S.data(df))):
                break
        decide(rec, f"{key}:instruments", f"{S.name} with two instruments", False, lambda: S.run(S.data(z_cols=["z", "zb"])))
    if g in ("PLIV", "IIVM", "LPQ") or S.name == "QTE-LPQ" or S.name.startswith("SSM-non"):
        decide(rec, f"{key}:no-instrument", f"{S.name} without an instrument", False, lambda: S.run(S.data(z_cols=None)))
    elif g not in ("SSM",):
        for z in ("zc", "zb", ["zc", "zb"]):
            if not decide(rec, f"{key}:instrument", f"{S.name} with instrument {z}", False, lambda: S.run(S.data(z_cols=z))):
                break
    # --- time and selection
    for role, cl in (("t", "DIDCS"), ("s", "SSM")):
        if g != cl:
            continue
        for lab, (v, ok) in domains(base[role], rng).items():
            df = base.copy()
            df[role] = v
            if not decide(rec, f"{key}:{role}", f"{S.name}, variable {role} {lab}", ok, lambda: S.run(S.data(df))):
                break
        decide(rec, f"{key}:no-{role}", f"{S.name} without {role}", False, lambda: S.run(S.data(**{f"{role}_col": None})))
    # --- outcome and the kind of the outcome learner
    slot = {"APO": "ml_g", "APOS": "ml_g", "IRM": "ml_g", "IIVM": "ml_g", "DID": "ml_g", "DIDCS": "ml_g", "SSM": "ml_g"}.get(g)
    if slot is not None and S.biny:
        for lab, (v, ok) in domains(base["y"], rng).items():
            df = base.copy()
            df["y"] = v
            if not decide(rec, f"{key}:outcome", f"{S.name}, outcome {lab} with a classifier", ok, lambda: S.run(S.data(df))):
                break
            decide(rec, f"{key}:outcome-regressor", f"{S.name}, outcome {lab} with a regressor", True, lambda: S.run(S.data(df), learners=dict(S.learners, ml_g=lin("ml_g", 1.0))))


# ------------------------------------------------------------------ learner slots
def learner_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    data = S.data()
    fit_clf = {"PLR": {"ml_m"}, "PLIV": set()}.get(S.group)
    for slot in S.learners:
        bad = [("a class", SpyReg), ("a class", SpyClf), ("an object without fit", NoFit()), ("an object without set_params", NoSet()), ("an object without get_params", NoGet()),
               ("an object without predict and predict_proba", NoPred()), ("a text", "ols"), ("a number", 1), ("a function", own_kde)]
        optional = (S.group in ("PLR",) and slot == "ml_g") or (slot == "ml_m" and "exp" in S.name)
        if not optional:
            bad.append(("None", None))
        if fit_clf is None:
            proba = slot != "ml_g" or S.group in ("PQ", "LPQ") or S.name in ("QTE-PQ", "QTE-LPQ")
            both = slot == "ml_g" and S.group not in ("PQ", "LPQ", "CVaR", "QTE")
            if both and not S.biny:
                bad.append(("a classifier for a continuous outcome", clf("x", 1.0)))
            if proba and not both:
                bad.append(("a regressor without predict_proba", lin("x", 1.0)))
        elif slot in fit_clf and S.name != "PLR-bin":
            bad.append(("a classifier for a continuous treatment", clf("x", 1.0)))
        for lab, l in bad:
            if not decide(rec, f"learner:{S.name}:{slot}", f"{S.name}, {slot} is {lab}", False, lambda: S.run(data, learners={**S.learners, slot: l})):
                break
        # two bad learners at once, and a bad learner with a bad option
        for (l1, a), (s2, (l2, b)) in itertools.product(bad[:4], itertools.product([s for s in S.learners if s > slot], bad[:4])):
            if not decide(rec, f"learners:{S.name}", f"{S.name}, {slot} is {l1} and {s2} is {l2}", False, lambda: S.run(data, learners={**S.learners, slot: a, s2: b})):
                break
        missing = {k: v for k, v in S.learners.items() if k != slot}
        if not optional:
            decide(rec, f"learner:{S.name}:{slot}", f"{S.name} without {slot}", False, lambda: S.run(data, learners=missing))
        # valid alternatives
        if S.group == "PLR" and slot == "ml_m" and S.name == "PLR-bin":
            decide(rec, f"learner:{S.name}:{slot}", f"{S.name}, {slot} is a regressor", True, lambda: S.run(data, learners={**S.learners, slot: lin("x", 1.0)}))


# ------------------------------------------------------------------ operations
def op_table(S, m):
    """(name, call, valid, needs) - needs: a fit / a bootstrap; valid None: not decided"""
    sens = S.cfg is not None and S.cfg.sens or S.group == "APOS"
    n = len(S.df)
    out = []
    add = lambda nm, f, ok, need="": out.append((nm, f, ok, need))
    for v in (1.5, "2", [1], 2.0):
        add(f"fit(n_jobs_cv={v!r})", lambda v=v: m.fit(n_jobs_cv=v), False)
    for k in ("store_predictions", "store_models"):
        for v in (1, "yes", None):
            add(f"fit({k}={v!r})", lambda k=k, v=v: m.fit(**{k: v}), False)
    d0 = S.treats[0]
    nm0 = m.params_names[0] if hasattr(m, "params_names") else "ml_m"
    good = np.full((n, 2), 0.5)
    exts = [("a list", [1]), ("an unknown treatment", {"nope": {nm0: good}}), ("a valid and an unknown treatment", {d0: {nm0: good}, "nope": {nm0: good}}), ("a valid and an unknown learner", {d0: {nm0: good, "ml_nope": good}}), ("no inner dictionary", {d0: good}), ("an unknown learner", {d0: {"ml_nope": good}}), ("a list of predictions", {d0: {nm0: good.tolist()}}),
            ("1d", {d0: {nm0: good[:, 0]}}), ("too short", {d0: {nm0: good[:-1]}}), ("one repetition", {d0: {nm0: good[:, :1]}}), ("three repetitions", {d0: {nm0: np.full((n, 3), 0.5)}}),
            ("3d", {d0: {nm0: good[:, :, None]}})]
    for lab, e in exts:
        if S.group == "APOS" and "treatment" not in lab and lab not in ("a list",):
            e = {0: e[d0]} if isinstance(e, dict) else e
            if isinstance(e[0], dict) and nm0 not in ("ml_m",):
                continue
        add(f"fit(external_predictions: {lab})", lambda e=e: m.fit(external_predictions=e), False)
    for v in ("bootstrap", "", 1, None, ["normal"]):
        add(f"bootstrap(method={v!r})", lambda v=v: m.bootstrap(method=v), False, "fit")
    for v in (0, -1, 1.5, 2.0, "100", None):
        add(f"bootstrap(n_rep_boot={v!r})", lambda v=v: m.bootstrap(n_rep_boot=v), False, "fit")
    for v in ("normal", "Bayes", "wild"):
        add(f"bootstrap({v!r}, 1)", lambda v=v: m.bootstrap(v, 1), True, "fit")
    for v in (0.0, 1.0, -0.1, 1.1, 1, 0, "0.9", None, nan, inf, [0.9]):
        add(f"confint(level={v!r})", lambda v=v: m.confint(level=v), False, "fit")
    for v in (1e-6, 0.5, 0.999999):
        add(f"confint(level={v!r})", lambda v=v: m.confint(level=v), True, "fit")
    for v in (1, "yes", None, 0):
        add(f"confint(joint={v!r})", lambda v=v: m.confint(joint=v), False, "fit")
    add("confint(joint=True)", lambda: m.confint(joint=True), True, "boot")
    if hasattr(m, "p_adjust"):
        for v in ("nope", "", 3, None, ["holm"]):
            add(f"p_adjust({v!r})", lambda v=v: m.p_adjust(method=v), False, "fit")
        for v in ("bonferroni", "holm", "fdr_bh", "hommel"):
            add(f"p_adjust({v!r})", lambda v=v: m.p_adjust(method=v), True, "fit")
        for v in ("rw", "romano-wolf", "Romano-Wolf"):
            add(f"p_adjust({v!r})", lambda v=v: m.p_adjust(method=v), True, "boot")
    if sens:
        for k in ("cf_y", "cf_d"):
            for v in (1.0, -0.1, 1.5, 1, 0, "0.1", None, nan, inf):
                add(f"sensitivity_analysis({k}={v!r})", lambda k=k, v=v: m.sensitivity_analysis(**{k: v}), False, "fit")
            for v in (0.0, 0.5, 0.99):
                add(f"sensitivity_analysis({k}={v!r})", lambda k=k, v=v: m.sensitivity_analysis(**{k: v}), True, "fit")
        for v in (1.1, -1.1, 1, 0, "1", None, nan, inf):
            add(f"sensitivity_analysis(rho={v!r})", lambda v=v: m.sensitivity_analysis(rho=v), False, "fit")
        for v in (-1.0, 0.0, 1.0):
            add(f"sensitivity_analysis(rho={v!r})", lambda v=v: m.sensitivity_analysis(rho=v), True, "fit")
        for v in (0.0, 1.0, -0.1, 1.1, 1, "0.9", None, nan):
            add(f"sensitivity_analysis(level={v!r})", lambda v=v: m.sensitivity_analysis(level=v), False, "fit")
        p = 3 if S.group == "APOS" else len(S.treats)
        for lab, v in (("text", "0"), ("None", None), ("int", 1), ("wrong length", np.zeros(p + 1)), ("2d", np.zeros((p, 1))), ("list", [0.0] * p)):
            add(f"sensitivity_analysis(null_hypothesis {lab})", lambda v=v: m.sensitivity_analysis(null_hypothesis=v), False, "fit")
        add("sensitivity_analysis(null_hypothesis array)", lambda: m.sensitivity_analysis(null_hypothesis=np.zeros(p)), True, "fit")
        for v in ("X1", [], ["nope"], ["X1", "nope"], None, 5, ["y"], ["d"]):
            add(f"sensitivity_benchmark({v!r})", lambda v=v: m.sensitivity_benchmark(v), False, "fit")
        for v in ([], "x", 5):
            add(f"sensitivity_benchmark(fit_args={v!r})", lambda v=v: m.sensitivity_benchmark(["X2"], fit_args=v), False, "fit")
        for lab, kw in (("value", dict(value="nope")), ("value number", dict(value=1)), ("include_scenario", dict(include_scenario=1)), ("fill", dict(fill="yes")), ("level", dict(level=1.5)),
                        ("null", dict(null_hypothesis="0")), ("grid_size", dict(grid_size=1)), ("grid_size text", dict(grid_size="10")), ("grid_bounds", dict(grid_bounds=(0.0, 0.1))), ("grid_bounds big", dict(grid_bounds=(0.1, 1.0))),
                        ("benchmarks list", dict(benchmarks=[1])), ("benchmarks keys", dict(benchmarks={"cf_y": [0.1]})), ("benchmarks lengths", dict(benchmarks={"cf_y": [0.1, 0.2], "cf_d": [0.1], "name": ["a"]})),
                        ("benchmarks values", dict(benchmarks={"cf_y": [1.0], "cf_d": [0.1], "name": ["a"]})), ("benchmarks names", dict(benchmarks={"cf_y": [0.1], "cf_d": [0.1], "name": [1]})),
                        ("benchmarks nan", dict(benchmarks={"cf_y": [nan], "cf_d": [0.1], "name": ["a"]}))):
            add(f"sensitivity_plot({lab})", lambda kw=kw: m.sensitivity_plot(**kw), False, "sens")
        for v in (-1, p, "0", 0.0):
            if S.group != "APOS":
                add(f"sensitivity_plot(idx_treatment={v!r})", lambda v=v: m.sensitivity_plot(idx_treatment=v), False, "sens")
    elif S.cfg is not None:
        add("sensitivity_analysis()", lambda: m.sensitivity_analysis(), False, "fit")
        add("sensitivity_benchmark", lambda: m.sensitivity_benchmark(["X2"]), False, "fit")
    if S.cfg is not None:
        lr = m.params_names[0]
        for lab, a in (("an unknown learner", ("ml_nope", d0, {"lam": 1.0})), ("an unknown treatment", (lr, "nope", {"lam": 1.0})), ("no treatment", (lr, None, {"lam": 1.0})), ("an empty name", ("", d0, {"lam": 1.0}))):
            add(f"set_ml_nuisance_params: {lab}", lambda a=a: m.set_ml_nuisance_params(*a), False)
        for v in (["ml_nope"], [lr, "ml_nope"], "ml_nope"):
            add(f"evaluate_learners({v!r})", lambda v=v: m.evaluate_learners(learners=v), False, "fit")
        for v in (5, "rmse", None):
            add(f"evaluate_learners(metric={v!r})", lambda v=v: m.evaluate_learners(metric=v), False, "fit")
        if S.cfg.tune:
            grids = {k: {"lam": [0.5, 4.0]} for k in m.learner_names}
            less = dict(list(grids.items())[1:])
            for lab, gr in (("None", None), ("a list", [grids]), ("empty", {}), ("a learner missing", less)):
                add(f"tune({lab})", lambda gr=gr: m.tune(gr), False)
            for k, vs in dict(tune_on_folds=(1, "yes", None), n_folds_tune=(1, 0, -2, 2.0, "2", None), search_mode=("grid", 1, None), n_iter_randomized_search=(1, 0, 1.5, "2", None), n_jobs_cv=(1.5, "1"),
                              set_as_params=(1, None, "no"), return_tune_res=(1, None), scoring_methods=("r2", {"ml_nope": None}, [None])).items():
                for v in vs:
                    add(f"tune({k}={v!r})", lambda k=k, v=v: m.tune(grids, **{k: v}), False)
    else:
        if S.group == "APOS":
            for v in (5, "0", [0, 5], None, [], 0.5):
                if v == []:
                    continue
                add(f"causal_contrast({v!r})", lambda v=v: m.causal_contrast(v), False, "fit")
            add("causal_contrast(0)", lambda: m.causal_contrast(0), True, "fit")
            add("causal_contrast([0, 1])", lambda: m.causal_contrast([0, 1]), True, "fit")
    # subgroup tools
    import pandas as pd

    cg = {"PLR": ("cate", "gate"), "IRM": ("cate", "gate"), "APO": ("capo", "gapo")}.get(S.group)
    if cg is not None:
        x = S.df["X2"].to_numpy()
        basis = pd.DataFrame({"c": np.ones(n), "x": x})
        grp = pd.DataFrame({"a": x > 0, "b": x <= 0})
        for lab, v in (("an array", basis.to_numpy()), ("a series", basis["x"]), ("None", None), ("a dictionary", {"x": x}), ("duplicate names", pd.DataFrame(basis.to_numpy(), columns=["x", "x"]))):
            add(f"{cg[0]}({lab})", lambda v=v: getattr(m, cg[0])(v), False, "fit1")
        for lab, v in (("an array", grp.to_numpy()), ("None", None), ("a series", grp["a"]), ("two float columns", grp.astype(float)), ("two text columns", grp.astype(str)), ("integers beyond 0/1", grp.astype(int) * 2),
                       ("one column of each kind", grp.assign(b=grp["b"].astype(float)))):
            add(f"{cg[1]}({lab})", lambda v=v: getattr(m, cg[1])(v), False, "fit1")
        for lab, f in ((cg[0], lambda: getattr(m, cg[0])(basis)), (cg[1], lambda: getattr(m, cg[1])(grp))):
            add(f"{lab} with two repetitions or treatments", f, False, "fit2")
        if S.group == "IRM":
            for lab, kw in (("an array", dict(features=basis.to_numpy())), ("None", dict(features=None)), ("depth", dict(features=basis, depth=-1)), ("depth text", dict(features=basis, depth="2")), ("depth float", dict(features=basis, depth=1.0)),
                            ("duplicate names", dict(features=pd.DataFrame(basis.to_numpy(), columns=["x", "x"])))):
                add(f"policy_tree({lab})", lambda kw=kw: m.policy_tree(**kw), False, "fit1")
            add("policy_tree with two repetitions", lambda: m.policy_tree(basis), False, "fit2")
    return out


def op_case(case, rec):
    S = Subject(case["name_"], case["seed"])
    sub = S.single()
    sens = S.cfg is not None and S.cfg.sens or S.group == "APOS"

    def mk(stage):
        CTL.reset(None, log=False)
        with quiet():
            if stage == "fit1":
                if S.cfg is None or S.group == "PLR" and len(S.treats) > 1 or "wbar" in S.name:
                    return None
                m = S.cfg.build(S.df, data=S.data(), n_folds=2, n_rep=1)
                m.set_sample_splitting(S.smpls()[0])
            else:
                m = sub.fresh()
            if stage:
                m.fit()
            if stage in ("boot", "sens"):
                np.random.seed(1)
                m.bootstrap(n_rep_boot=2)
            if stage == "sens" and sens:
                m.sensitivity_analysis()
        return m

    obs = lambda m: (O.model if S.cfg is not None else O.composite)(m)
    stages = ["", "fit", "boot", "fit1"] + (["sens"] if sens else [])
    for stage in stages:
        m = mk(stage)
        if m is None:
            continue
        ref = obs(m)
        table = op_table(S, m)
        fns = {o[0]: o[1] for o in table}  # rebound whenever an accepted operation used up the object
        for nm, _, ok, need in table:
            f = fns[nm]
            have = {"": ("",), "fit": ("", "fit", "fit2"), "boot": ("", "fit", "boot"), "sens": ("", "fit", "sens", "boot"), "fit1": ("fit1",)}[stage]
            if stage == "fit1" and S.group == "IRM" and S.opts.get("score") == "ATTE" or callable(S.opts.get("score")):
                if need in ("fit1", "fit2"):
                    continue
            if need in have:
                valid = ok
            elif stage == "" and need in ("fit", "boot", "sens"):
                valid = False  # before the fit everything that needs one is rejected
            elif stage == "fit" and need == "boot":
                valid = False
            else:
                continue
            what = f"{S.name} {'unfitted' if stage == '' else 'after ' + stage}: {nm}"
            op = nm.split("(")[0].split(":")[0].split(" ")[0]
            good = decide(rec, f"op:{S.name}:{op}", what, valid, f)
            if not valid:
                dd = O.diff(obs(m), ref)
                if dd:
                    rec.fail(f"op:{S.name}:{op}:state", f"{what}: the rejected call changed what the object reports at {dd[:200]}")
                    good = False
            else:
                m = mk(stage)
                fns = {o[0]: o[1] for o in op_table(S, m)}
            if not good:
                return


# ------------------------------------------------------------------ regression discontinuity
class NoWeight(SpyReg):
    def fit(self, X, y):
        return SpyReg.fit(self, X, y)


class NoWeightClf(SpyClf):
    def fit(self, X, y):
        return SpyClf.fit(self, X, y)


def rd_case(case, rec):
    try:
        from doubleml.rdd import RDFlex

        import rdrobust  # noqa: F401
    except ImportError:
        rec.outcome("rdrobust missing")
        rec.step()
        return
    import doubleml as dml

    fuzzy = case["fuzzy"]
    df = rd_frame("fuzzy" if fuzzy else "sharp", "cont", "f", case["seed"], 0.0)
    rng = np.random.RandomState(case["seed"])

    def run(frame=None, data=None, ml_g=None, ml_m=None, fit=None, roles=None, **opts):
        kw = dict(y_col="y", d_cols="d", x_cols=["X1", "X2"], s_col="s")
        kw.update(roles or {})
        kw = {k: v for k, v in kw.items() if v is not None}
        o = dict(fuzzy=fuzzy, cutoff=0.0, n_folds=2, n_rep=1, h_fs=0.9)
        o.update(opts)
        if data is None:
            data = dml.DoubleMLData(df if frame is None else frame, **kw)
        np.random.seed(3)
        m = RDFlex(data, lin("ml_g", 1.0) if ml_g is None else ml_g, clf("ml_m", 0.7) if ml_m is None and fuzzy else (None if ml_m == "none" else ml_m), **o)
        m.fit(**({} if fit is None else {"n_iterations": fit}))
        return m

    k = f"rd:{'fuzzy' if fuzzy else 'sharp'}"
    decide(rec, k, "base", True, run)
    T = dict(n_folds=[(2, True), (3, True)] + [(v, False) for v in (0, 1, -1, 2.0, "2", None)], n_rep=[(1, True), (2, True)] + [(v, False) for v in (0, -1, 1.0, "1", None)],
             h_fs=[(0.9, True), (None, True)] + [(v, False) for v in ("0.5", 1, [0.5])], fs_specification=[(v, True) for v in ("cutoff", "cutoff and score", "interacted cutoff and score")] + [(v, False) for v in ("score", "", 1, None, ["cutoff"])],
             fs_kernel=[(v, True) for v in ("uniform", "triangular", "epanechnikov", "Uniform")] + [(v, False) for v in ("gauss", "", 1, None, ["uniform"])],
             cutoff=[(0.0, True), (0, True)] + [(v, False) for v in ("0", None, [0.0], 5.0, -5.0, nan, inf)])
    for o, vals in T.items():
        for v, ok in vals:
            if not decide(rec, f"{k}:{o}", f"RDFlex({o}={v!r})", ok, lambda: run(**{o: v})):
                break
    for (o1, a), (o2, b) in itertools.combinations(T.items(), 2):
        for (v1, ok1), (v2, ok2) in itertools.product(a, b):
            if not (ok1 and ok2):
                if not decide(rec, f"{k}:{o1},{o2}", f"RDFlex({o1}={v1!r}, {o2}={v2!r})", False, lambda: run(**{o1: v1, o2: v2})):
                    break
    for v, ok in [(1, True), (2, True)] + [(v, False) for v in (0, -1, 1.5, "2")]:
        decide(rec, f"{k}:n_iterations", f"fit(n_iterations={v!r})", ok, lambda: run(fit=v))
    for lab, (v, ok) in domains(df["d"], rng).items():
        f = df.copy()
        f["d"] = v
        if not decide(rec, f"{k}:treatment", f"treatment {lab}", ok, lambda: run(f)):
            break
    for lab, roles in (("two treatments", dict(d_cols=["d", "d2"])), ("an instrument", dict(z_cols="zz")), ("no score", dict(s_col=None))):
        f = df.assign(d2=1 - df["d"], zz=rng.randn(len(df)))
        decide(rec, f"{k}:roles", lab, False, lambda: run(f, roles=roles))
    for lab, v in (("binary", (df.s > 0) * 1.0), ("integers", np.round(df.s * 3)), ("int", np.round(df.s * 3).astype(int))):
        f = df.copy()
        f["s"] = v
        decide(rec, f"{k}:score", f"score {lab}", False, lambda: run(f))
    for lab, o in (("a frame", df), ("None", "x"), ("an array", df.to_numpy())):
        decide(rec, f"{k}:object", lab, False, lambda: run(data=o))
    bad = [("a class", SpyReg), ("no fit", NoFit()), ("no set_params", NoSet()), ("no get_params", NoGet()), ("no predict", NoPred()), ("a text", "ols"), ("no sample weights", NoWeight("x", 1.0)), ("no sample weights", NoWeightClf("x", 1.0)),
           ("a classifier for a continuous outcome", clf("x", 1.0))]
    for lab, l in bad:
        decide(rec, f"{k}:ml_g", f"ml_g is {lab}", False, lambda: run(ml_g=l))
    if fuzzy:
        for lab, l in bad[:-1] + [("a regressor", lin("x", 1.0)), ("missing", "none")]:
            decide(rec, f"{k}:ml_m", f"ml_m is {lab}", False, lambda: run(ml_m=l))


# ------------------------------------------------------------------ stand-alone tools
def tool_case(case, rec):
    import doubleml as dml
    import pandas as pd
    from doubleml.utils import DoubleMLBLP, DoubleMLPolicyTree

    n = 24
    r = np.random.RandomState(case["seed"])
    sig = r.randn(n)
    basis = pd.DataFrame({"c": np.ones(n), "x": r.randn(n)})
    for cls, second in ((DoubleMLBLP, "basis"), (DoubleMLPolicyTree, "features")):
        decide(rec, f"tool:{second}", "base", True, lambda: cls(sig, basis).fit())
        for lab, a, b in (("list signal", list(sig), basis), ("series signal", pd.Series(sig), basis), ("2d signal", sig.reshape(-1, 1), basis), ("0d signal", np.array(1.0), basis), ("no signal", None, basis), ("array", sig, basis.to_numpy()),
                          ("series", sig, basis["x"]), ("none", sig, None), ("duplicates", sig, pd.DataFrame(basis.to_numpy(), columns=["x", "x"])), ("too short", sig[:-1], basis), ("too long", sig, basis.iloc[:-1])):
            decide(rec, f"tool:{second}", f"{cls.__name__}: {lab}", False, lambda: cls(a, b).fit())
    fw = dict(thetas=np.array([1.0]), ses=np.array([0.5]), all_thetas=np.array([[1.0]]), all_ses=np.array([[0.5]]), var_scaling_factors=np.array([1.0 * n]), scaled_psi=sig.reshape(n, 1, 1))
    F = dml.DoubleMLFramework
    decide(rec, "tool:framework", "base", True, lambda: F(fw))
    for k, v in fw.items():
        decide(rec, "tool:framework", f"without {k}", False, lambda: F({a: b for a, b in fw.items() if a != k}))
        for lab, w in (("too long", np.concatenate([v, v], axis=0)), ("extra dimension", v[..., None]), ("flat number", np.array(1.0))):
            if k in ("scaled_psi",) and lab == "too long":
                continue  # more observations
            decide(rec, "tool:framework", f"{k} {lab}", False, lambda: F({**fw, k: w}))
    for lab, o in (("a list", [1]), ("None", None), ("a text", "x"), ("empty", {})):
        decide(rec, "tool:framework", lab, False, lambda: F(o))
    f1 = lambda: F({a: b.copy() for a, b in fw.items()})
    for lab, g in (("f + 1", lambda: f1() + 1), ("f - text", lambda: f1() - "x"), ("f * f", lambda: f1() * f1()), ("f * text", lambda: f1() * "a"), ("f + None", lambda: f1() + None), ("concat of nothing", lambda: dml.double_ml_framework.concat([])),
                   ("concat with a number", lambda: dml.double_ml_framework.concat([f1(), 1])), ("treatment names text", lambda: setattr(f1(), "treatment_names", "d")),
                   ("treatment names too many", lambda: setattr(f1(), "treatment_names", ["a", "b"])), ("treatment names numbers", lambda: setattr(f1(), "treatment_names", [1]))):
        decide(rec, "tool:framework-op", lab, False, g)
    other = F({**{a: b.copy() for a, b in fw.items()}, "scaled_psi": np.zeros((n + 1, 1, 1))})
    for lab, g in (("+", lambda: f1() + other), ("-", lambda: f1() - other), ("concat", lambda: dml.double_ml_framework.concat([f1(), other]))):
        decide(rec, "tool:framework-op", f"different numbers of observations {lab}", False, g)


def case_fn(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"option": option_case, "data": data_case, "learner": learner_case, "op": op_case, "rd": rd_case, "tool": tool_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    names = list(catalog(2)) + ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]
    first = {}
    for nm in names:
        first.setdefault(nm if nm.startswith("QTE") else nm.split("-")[0], nm)
    for nm in names:
        internal = nm in ("PLIV-pZ", "PLIV-pXZ")
        if not internal:
            yield dict(kind="option", name="option", name_=nm, mode="single", seed=seed, fit=True)
            if thor or nm in first.values() or nm in ("IRM-atte", "IIVM-noAT"):
                yield dict(kind="option", name="options", name_=nm, mode="pair", seed=seed, fit=thor)
            yield dict(kind="data", name="data", name_=nm, seed=seed)
            yield dict(kind="learner", name="learner", name_=nm, seed=seed)
        if thor or nm in first.values() or nm in ("PLR-2d", "IRM-atte"):
            yield dict(kind="op", name="op", name_=nm, seed=seed)
    for f in (False, True):
        yield dict(kind="rd", name="rd", fuzzy=f, seed=seed)
    yield dict(kind="tool", name="tool", seed=seed)


if __name__ == "__main__":
    Check("C23", case_fn, cases, rule="all model classes and score/option combinations x (every value of the domain table of every constructor option, singly and in all pairs of options; "
          "every value domain of every data role; every interface violation of every learner slot and pairs of slots; every argument of every public operation before the fit, after it, after the "
          "bootstrap and after the sensitivity analysis)", assumptions=["recording learners; the tables of valid and invalid values follow the documentation"]).main()
