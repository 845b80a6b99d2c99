"""C12 inputs are never modified; models sharing data and learner objects stay independent.  (a) every operation (and pairs) of every
subject with a bit-exact fingerprint of everything the caller passed in; (b) all interleavings of two (three) models' operation
scripts on shared data and learner objects against isolated runs; (c) deep copies taken at every point of a script."""
import copy
import itertools
import os
import pickle
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import pandas as pd

from mc import observe as O
from mc.catalog import Cfg, catalog, make_df, smpls_from_labels
from mc.core import Check
from mc.spy import CTL, clf, lin

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from C08 import SKIP, Clustered, Comp, Single


def fp(o):
    """bit-exact fingerprint of a caller-owned object"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ao", o.shape, tuple(fp(v) for v in o.ravel().tolist()))
        return ("a", o.dtype.str, o.shape, o.tobytes(), o.flags.writeable)
    if isinstance(o, pd.DataFrame):
        return ("df", tuple(map(str, o.columns)), type(o.index).__name__, tuple(o.index.tolist()), o.columns.name, o.index.name,
                tuple((str(o.dtypes.iloc[j]), fp(o.iloc[:, j].to_numpy())) for j in range(o.shape[1])), repr(o.attrs))
    if isinstance(o, dict):
        return ("d", type(o).__name__, tuple((repr(k), fp(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fp(v) for v in o))
    if hasattr(o, "get_params") and hasattr(o, "fit"):
        return ("l", type(o).__name__, tuple(sorted((k, fp(v)) for k, v in vars(o).items())))
    if isinstance(o, (str, int, float, bool, np.generic)) or o is None:
        return (type(o).__name__, repr(o))
    return ("o", id(o))


class Inputs:
    def __init__(self):
        self.items = []

    def own(self, label, o):
        self.items.append((label, o, fp(o)))
        return o

    def changed(self):
        return [lab for lab, o, f in self.items if fp(o) != f]


# ------------------------------------------------------------------ (a) unmodified inputs
class Subj:
    """a subject of C08 whose inputs are caller owned"""

    def __init__(self, name, seed, n_rep=2):
        self.name, self.n_rep = name, n_rep
        if name.startswith("CL-"):
            self.S = Clustered(name, seed)
        elif name.startswith(("APOS", "QTE")):
            self.S = Comp(name, seed)
        else:
            self.S = Single(catalog(n_rep)[name], seed)
        self.df = self.S.df
        self.cfg = self.S.cfg

    def make(self, I):
        import doubleml as dml

        S, cfg = self.S, self.cfg
        df = I.own("data frame", self.df.copy())
        splits = I.own("sample splitting", [S.A, S.B])
        x = I.own("x_cols", ["X1", "X2"])
        if cfg is None:
            kw = {"z_cols": "z"} if "LPQ" in self.name else {}
            data = dml.DoubleMLData(df, "y", "d", x_cols=x, **kw)
            c = "APOS" in self.name
            g = I.own("ml_g", lin("ml_g") if c or "CVaR" in self.name else clf("ml_g"))
            mm = I.own("ml_m", clf("ml_m", 2.0))
            if c:
                wts = {"APOS": None, "APOS-w": df["w"].to_numpy().copy()}.get(self.name)
                m = dml.DoubleMLAPOS(data, g, mm, treatment_levels=I.own("treatment_levels", [2, 0, 1]), n_folds=2, n_rep=2,
                                     weights=I.own("weights", wts), draw_sample_splitting=False)
            else:
                q = I.own("quantiles", np.array([0.6, 0.4]))
                m = dml.DoubleMLQTE(data, g, mm, quantiles=q, score=self.name.split("-")[1], n_folds=2, n_rep=2,
                                    draw_sample_splitting=False)
        else:
            ls = I.own("learners", cfg.learners())
            kw = {k: (I.own(k, list(v)) if isinstance(v, list) else v) for k, v in cfg.data_kw.items()}
            d = I.own("d_cols", list(cfg.treats))
            if self.name.startswith("CL-"):
                data = dml.DoubleMLClusterData(df, "y", d, cluster_cols=I.own("cluster_cols", list(S.ccols)), x_cols=x, **kw)
            else:
                data = dml.DoubleMLData(df, "y", d, x_cols=x, **kw)
            over = {k: I.own(k, v) for k, v in cfg.options(self.df).items() if k in ("weights", "subgroups")}
            m = cfg.build(self.df, data=data, n_folds=2, n_rep=2, learners=ls, **over)
        self.splits = splits
        self.data = data
        return m

    def ops(self, I):
        S, cfg = self.S, self.cfg
        n = len(self.df)

        def split(j):
            if self.name.startswith("CL-"):
                return lambda m: m.set_sample_splitting(*self.splits[j])
            return lambda m: m.set_sample_splitting(self.splits[j])

        def ext(m):
            e = I.own("external predictions", S.ext(m))
            m.fit(external_predictions=e)

        def params(m):
            for w in ("P", "Q"):
                for lr, d, p in S.params(m, w):
                    m.set_ml_nuisance_params(lr, d, I.own("parameters", p))

        def tune(m):
            g = I.own("param_grids", {k: {"lam": [0.5, 4.0]} for k in m.learner_names})
            sc = I.own("scoring_methods", {m.learner_names[0]: neg_mse})
            m.tune(g, scoring_methods=sc, n_folds_tune=2)
            m.tune(g, tune_on_folds=True, n_folds_tune=2, search_mode="randomized_search", n_iter_randomized_search=2)

        def sens(m):
            m.sensitivity_analysis(cf_y=0.05, cf_d=0.1)
            m.sensitivity_benchmark(I.own("benchmarking_set", ["X2"]))

        def plot(m):
            bs = I.own("benchmarks", {"cf_y": [0.1], "cf_d": [0.2], "name": ["b"]})
            m.sensitivity_analysis(cf_y=0.05, cf_d=0.1)
            m.sensitivity_plot(benchmarks=bs, grid_size=10)

        def evaluate(m):
            m.evaluate_learners(metric=touchy)

        o = {"fit": lambda m: m.fit(), "fitm": lambda m: m.fit(store_models=True), "A": split(0), "draw": lambda m: m.draw_sample_splitting(),
             "boot": lambda m: m.bootstrap(n_rep_boot=4) if m.framework is not None else None,
             "ci": lambda m: m.confint() if m.framework is not None else None}
        if not (cfg is not None and "wbar" in cfg.name):
            o["B"] = split(1)
        if "biny" in self.name:
            del o["draw"]
        if cfg is None and "APOS" in self.name or cfg is not None and cfg.ext:
            o["ext"] = ext
        if cfg is not None:
            o["params"] = params
            if cfg.tune and not self.name.startswith("CL-"):
                o["tune"] = tune
            o["eval"] = lambda m: evaluate(m) if m.framework is not None else None
        if cfg is not None and cfg.sens or "APOS" in self.name:
            o["sens"] = lambda m: sens(m) if m.framework is not None else None
        if self.name in ("PLR-po", "IRM-ate"):
            o["plot"] = lambda m: plot(m) if m.framework is not None else None
        if self.name.startswith("CL-"):
            del o["boot"]
        if "APOS" in self.name:
            o["contrast"] = lambda m: m.causal_contrast(I.own("reference_levels", [0, 2])) if m.framework is not None else None
        if cfg is not None and not self.name.startswith("CL-") and (cfg.cls == "DoubleMLIRM" and cfg.kw.get("score") == "ATE"
                                                                    or cfg.name in ("PLR-po", "PLR-bin") or cfg.cls == "DoubleMLAPO"):
            o["cate"] = lambda m: self.cate(m, I)
        return o

    def cate(self, m, I):
        if m.framework is None or m.n_rep != 1:
            return
        df = self.df
        b = I.own("basis", pd.DataFrame({"c": np.ones(len(df)), "x": df.X2.to_numpy()}, index=np.arange(len(df)) + 5))
        g1 = I.own("groups", pd.DataFrame({"a": df.X2 > 0, "b": df.X2 <= 0}))
        g2 = I.own("groups (labels)", pd.DataFrame({"g": np.where(df.X2 > 0, "hi", "lo")}))
        f = I.own("features", pd.DataFrame({"x": df.X2.to_numpy(), "x1": df.X1.to_numpy()}))
        kw = I.own("kwargs", {"cov_type": "HC1"})
        if self.cfg.cls == "DoubleMLAPO":
            r = m.capo(b)
            r.confint(b, joint=True, n_rep_boot=4)
            for g in (g1, g2):
                m.gapo(g, **kw).confint()
            return
        if self.cfg.kw.get("score") in ("ATE", "partialling out"):
            r = m.cate(b, **kw)
            r.confint(b, joint=True, n_rep_boot=4)
            r.confint()
        for g in (g1, g2):
            r = m.gate(g)
            r.confint(joint=True, n_rep_boot=4)
        if self.cfg.cls == "DoubleMLIRM" and self.cfg.kw.get("score") == "ATE" and "w" not in self.name:
            tp = I.own("tree_params", {"min_samples_leaf": 2})
            t = m.policy_tree(f, depth=1, **tp)
            t.predict(f)


def neg_mse(est, X, y):
    return -float(np.mean((np.asarray(y, dtype=float) - 0.1 * est.lam) ** 2))


def touchy(y_true, y_pred):
    return float(np.nanmean(np.abs(y_true - y_pred)))


def unmod_case(case, rec):
    sub = Subj(case["cfg"], case["seed"])
    CTL.reset(log=False)
    probe = sub.ops(Inputs())
    names = list(probe)
    if case["first"] not in names:
        return
    for rest in itertools.product(names, repeat=case["depth"] - 1):
        seq = (case["first"],) + rest
        I = Inputs()
        m = sub.make(I)
        bad = I.changed()
        if bad:
            return rec.fail(f"modified:{sub.name}:construct:{bad[0]}", f"{sub.name}: construction modified {bad}")
        sub_ops = sub.ops(I)
        np.random.seed(5)
        fn = sub_ops["B" if sub.name in CATE and "B" in sub_ops else "A"]
        fn(m)
        for i, op in enumerate(seq):
            try:
                sub_ops[op](m)
            except ValueError:
                if op != "eval":
                    raise
            rec.step()
            bad = I.changed()
            if bad:
                return rec.fail(f"modified:{sub.name}:{op}:{bad[0]}", f"{sub.name}: {seq[: i + 1]} modified the caller's {bad}")
        rec.state(sub.name, seq)
        rec.trace()
        if m.framework is not None:
            rec.outcome(sub.name, np.round(m.coef, 9).tolist())


CATE = {"PLR-po", "PLR-bin", "IRM-ate", "APO-1"}


def helpers_case(case, rec):
    """stand-alone helpers and data classes"""
    import doubleml as dml
    from doubleml.utils.blp import DoubleMLBLP
    from doubleml.utils.policytree import DoubleMLPolicyTree

    df0 = make_df("bin", 4, 4, case["seed"])
    df0["c1"] = df0.block
    n = len(df0)
    I = Inputs()
    df = I.own("data frame", df0.copy())
    x, d = I.own("x_cols", ["X1", "X2"]), I.own("d_cols", ["d"])
    what = case["what"]
    if what == "data":
        z = I.own("z_cols", ["zc"])
        c = I.own("cluster_cols", ["c1"])
        for cls, kw in ((dml.DoubleMLData, {}), (dml.DoubleMLClusterData, dict(cluster_cols=c))):
            o = cls(df, "y", d, x_cols=x, z_cols=z, **kw)
            o.x_cols = I.own("new x_cols", ["X2"])
            o.d_cols = I.own("new d_cols", ["d2", "d"])
            o.z_cols = None
            o.y_col = "w"
            o.set_x_d("d")
            str(o), o.summary if hasattr(o, "summary") else None
        arrs = {k: I.own(k, df0[v].to_numpy().copy()) for k, v in dict(x=["X1", "X2"], y="y", d="d", z="zc", cl="c1").items()}
        o = dml.DoubleMLData.from_arrays(arrs["x"], arrs["y"], arrs["d"], z=arrs["z"])
        m = dml.DoubleMLPLIV(o, lin("a"), lin("b"), lin("c"), n_folds=2).fit()
        o = dml.DoubleMLClusterData.from_arrays(arrs["x"], arrs["y"], arrs["d"], cluster_vars=arrs["cl"])
        m = dml.DoubleMLPLR(o, lin("a"), lin("b"), n_folds=2).fit()
        I.own("data setters", 0)
    elif what == "blp":
        sig = I.own("signal", np.sin(np.arange(n) * 1.7))
        basis = I.own("basis", pd.DataFrame({"a": np.ones(n), "b": df0.X1.to_numpy()}))
        for gate in (False, True):
            b = I.own("gate basis", pd.DataFrame({"u": df0.X1.to_numpy() > 0, "v": df0.X1.to_numpy() <= 0})) if gate else basis
            o = DoubleMLBLP(sig, b, is_gate=gate)
            o.fit(cov_type="HC3")
            o.confint(b), o.confint(joint=gate), o.confint(b, joint=True, n_rep_boot=3), str(o), o.summary
            copy.deepcopy(o)
        f = I.own("features", pd.DataFrame({"a": df0.X1.to_numpy(), "b": df0.X2.to_numpy()}))
        t = DoubleMLPolicyTree(sig, f, depth=2, **I.own("tree_params", {"min_samples_leaf": 1})).fit()
        t.predict(f), str(t), t.summary
    elif what == "rdd":
        from doubleml.rdd.datasets import make_simple_rdd_data
        from sklearn.linear_model import LinearRegression, LogisticRegression

        np.random.seed(1)
        dd = make_simple_rdd_data(n_obs=300, fuzzy=True)
        fr = pd.DataFrame(np.column_stack((dd["Y"], dd["D"], dd["score"], dd["X"])), columns=["y", "d", "score"] + [f"X{i}" for i in range(dd["X"].shape[1])])
        fr = I.own("rdd frame", fr)
        data = dml.DoubleMLData(fr, "y", "d", x_cols=I.own("x", [c for c in fr if c.startswith("X")]), s_col="score")
        g, mm = I.own("ml_g", LinearRegression()), I.own("ml_m", LogisticRegression())
        from doubleml.rdd import RDFlex

        for fz in (True, False):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = RDFlex(data, g, mm if fz else None, fuzzy=fz, n_folds=2, fs_specification="interacted cutoff and score")
                o.fit(), o.confint(), str(o)
    elif what == "framework":
        data = dml.DoubleMLData(df, "y", d, x_cols=x)
        ms = [dml.DoubleMLIRM(data, I.own("g", lin("g")), I.own("m", clf("m")), n_folds=2, score=s).fit() for s in ("ATE", "ATTE")]
        fws = I.own("list of frameworks", [m.framework for m in ms])
        keep = [O.framework(f) for f in fws]
        c = dml.concat(fws)
        c.bootstrap(n_rep_boot=3), c.confint(joint=True), c.p_adjust(), (fws[0] - fws[1]).bootstrap(n_rep_boot=3), (2.0 * fws[0]).summary
        fws[0] + fws[1]
        for f, k in zip(fws, keep):
            rec.expect(O.diff(O.framework(f), k) is None, "framework-modified", f"framework changed at {O.diff(O.framework(f), k)}")
        from doubleml.utils import gain_statistics

        data2 = dml.DoubleMLData(df, "y", d, x_cols=["X1"])
        m2 = dml.DoubleMLIRM(data2, lin("g"), clf("m"), n_folds=2).fit()
        before = [O.model(ms[0]), O.model(m2)]
        gain_statistics(ms[0], m2)
        for m, k in zip((ms[0], m2), before):
            rec.expect(O.diff(O.model(m), k) is None, "gain-modified", f"gain_statistics changed {O.diff(O.model(m), k)}")
    elif what == "learners":
        from doubleml.utils import GlobalClassifier, GlobalRegressor

        X, y = df0[["X1", "X2"]].to_numpy(), df0.y.to_numpy()
        b, cc = I.own("base regressor", lin("b")), I.own("base classifier", clf("b"))
        w = I.own("sample weights", df0.w.to_numpy().copy())
        GlobalRegressor(b).fit(X, y, sample_weight=w).predict(X)
        g = GlobalClassifier(cc).fit(X, df0.d.to_numpy(), sample_weight=w)
        g.predict(X), g.predict_proba(X)
        data = dml.DoubleMLData(df, "y", d, x_cols=x)
        gr, gc = I.own("GlobalRegressor", GlobalRegressor(b)), I.own("GlobalClassifier", GlobalClassifier(cc))
        m = dml.DoubleMLIRM(data, gr, gc, n_folds=2)
        m.fit(store_models=True)
        m.tune({"ml_g": I.own("grid", {"base_estimator__lam": [0.5, 2.0]}), "ml_m": {"base_estimator__lam": [0.5, 2.0]}}, n_folds_tune=2)
        m.fit()
    rec.step(len(I.items))
    rec.trace()
    rec.state("helpers", what)
    rec.outcome(what)
    bad = I.changed()
    if bad:
        rec.fail(f"modified:{what}:{bad[0]}", f"{what}: the caller's {bad} has been modified")


# ------------------------------------------------------------------ (b) interleavings
GROUPS = {
    "bin": ["PLR-bin", "IRM-ate", "IRM-atte", "DID-obs", "PQ-1", "CVaR-0"],
    "cont": ["PLR-po", "PLR-iv"],
    "cont2": ["PLR-2d", "PLR-iv-2d"],
    "pliv": ["PLIV-po", "PLIV-iv"],
    "pliv2": ["PLIV-2z", "PLIV-pXZ", "PLIV-pZ"],
    "pliv2d": ["PLIV-2d", "PLIV-2d"],
    "iv": ["IIVM", "LPQ-1", "LPQ-0"],
    "lvl": ["APO-1", "APO-2-norm", "APO-0-w"],
    "cs": ["DIDCS-obs", "DIDCS-exp"],
    "ssm": ["SSM-mar", "SSM-mar-norm"],
    "ssmz": ["SSM-non", "SSM-non-norm"],
}
SCRIPTS = {1: ["A", "fit", "boot"], 2: ["B", "params", "fit"], 3: ["draw", "tune", "fit"], 4: ["fit", "ext", "sens"]}


class Shared:
    """one data object and one learner object per name, used by several models"""

    def __init__(self, cfgs, seed, one_learner):
        self.cfgs = cfgs
        self.df = cfgs[0].frame(seed, blocks=4, per_cell=max(c.per_cell for c in cfgs))
        self.one = one_learner
        b = self.df.block
        self.A = [smpls_from_labels(b, [0, 1, 0, 1]), smpls_from_labels(b, [0, 0, 1, 1])]
        self.B = [smpls_from_labels(b, [0, 1, 2, 1])]

    def learners(self, cfg, pool):
        if self.one:  # the same object for every role of the same type
            return {a: pool.setdefault(t, (lin if t == "r" else clf)(tag="one", lam=1.5)) for a, (t, l) in cfg.args.items()}
        return {a: pool.setdefault((a, t), (lin if t == "r" else clf)(tag=a, lam=1.0 * l)) for a, (t, l) in cfg.args.items()}

    def model(self, i, data, pool):
        cfg = self.cfgs[i]
        m = cfg.build(self.df, data=data, n_folds=2, n_rep=2, learners=self.learners(cfg, pool))
        m.set_sample_splitting(self.A if i % 2 == 0 else self.A[::-1])
        return m

    def apply(self, m, i, op):
        cfg = self.cfgs[i]
        np.random.seed(11 + i)
        S = Single.__new__(Single)
        S.cfg, S.df, S.name, S.wbar = cfg, self.df, cfg.name, False
        if op == "A":
            m.set_sample_splitting(self.A)
        elif op == "B":
            m.set_sample_splitting(self.B)
        elif op == "draw":
            m.draw_sample_splitting()
        elif op == "fit":
            m.fit(store_models=True)
        elif op == "boot":
            m.bootstrap(n_rep_boot=4)
        elif op == "params":
            for w in ("P", "Q"):
                for lr, d, p in S.params(m, w):
                    m.set_ml_nuisance_params(lr, d, p)
        elif op == "tune":
            if cfg.tune:
                m.tune({k: {"lam": [0.5, 4.0]} for k in m.learner_names}, n_folds_tune=2)
        elif op == "ext":
            if cfg.ext:
                m.fit(external_predictions=S.ext(m))
            else:
                m.fit(store_predictions=False)
        elif op == "sens":
            if cfg.sens:
                m.sensitivity_analysis(cf_y=0.05, cf_d=0.1)
                m.sensitivity_benchmark(["X2"])


def merges(lens):
    """all interleavings of sequences with the given lengths, as sequences of indices"""
    if not any(lens):
        yield ()
        return
    for i, l in enumerate(lens):
        if l:
            rest = list(lens)
            rest[i] -= 1
            for t in merges(rest):
                yield (i,) + t


def inter_case(case, rec):
    CTL.reset(log=False)
    cat = catalog(2)
    sh = Shared([cat[c] for c in case["cfgs"]], case["seed"], case["one"])
    scripts = [SCRIPTS[s][: case["len"]] for s in case["scripts"]]
    iso = []
    for i, sc in enumerate(scripts):  # isolated: own data, own learners
        m = sh.model(i, sh.cfgs[i].data(sh.df.copy()), {})
        stages = [O.model(m)]
        for op in sc:
            sh.apply(m, i, op)
            stages.append(O.model(m))
        iso.append(stages)
    for order in merges([len(s) for s in scripts]):
        pool = {}
        df = sh.df.copy()
        data = sh.cfgs[0].data(df)
        ms = [sh.model(i, data, pool) for i in range(len(scripts))]
        pos = [0] * len(ms)
        rec.state(case["cfgs"], case["scripts"], order)
        rec.trace()
        for i in order:
            sh.apply(ms[i], i, scripts[i][pos[i]])
            pos[i] += 1
            rec.step()
        for i, m in enumerate(ms):
            d = O.diff(O.model(m), iso[i][pos[i]])
            if d:
                return rec.fail(f"shared:{case['cfgs'][i]}:{d}", f"models {case['cfgs']} with scripts {scripts} in order {order}: {d} of model "
                                f"{i} differs from a run with its own copies")
        if fp(df) != fp(sh.df):
            return rec.fail(f"shared:frame:{case['cfgs'][0]}", "the shared data frame has been modified")
    rec.outcome(case["cfgs"], case["scripts"], iso[0][-1]["coef"] if iso[0][-1]["coef"] is None else np.round(iso[0][-1]["coef"], 9).tolist())


# ------------------------------------------------------------------ (c) copies
def copy_case(case, rec):
    CTL.reset(log=False)
    name = case["cfg"]
    sub = Subj(name, case["seed"])
    S = sub.S
    probe = list(sub.ops(Inputs()))
    pre_all = [p for k in range(case["pre"] + 1) for p in itertools.product([o for o in case["alpha"] if o in probe], repeat=k)]
    for pre in pre_all:
        for op, how in [(o, copy.deepcopy) for o in probe] + [(o, lambda m: pickle.loads(pickle.dumps(m))) for o in probe if not pre]:
            I = Inputs()
            m = sub.make(I)
            ops = sub.ops(I)
            np.random.seed(3)
            ops["A"](m)
            for o in pre:
                ops[o](m)
            before = S.observe(m)
            c = how(m)
            rec.state(name, pre, op)
            rec.trace()
            rec.step(2)
            d = O.diff(S.observe(c), before)
            if d:
                return rec.fail(f"copy:{name}:{d}", f"{name} after {pre}: the copy reports another {d}")
            for who, act, other in (("copy", c, m), ("original", m, c)):
                ref = S.observe(other)
                np.random.seed(9)
                try:
                    ops[op](act)
                except ValueError:
                    if op != "eval":
                        raise
                d = O.diff(S.observe(other), ref)
                if d:
                    return rec.fail(f"copy-shared:{name}:{op}:{d}", f"{name} after {pre}: {op} on the {who} changes {d} of the other")
            d = O.diff(S.observe(m), S.observe(c))
            if d:
                return rec.fail(f"copy-differs:{name}:{op}:{d}", f"{name} after {pre}: {op} gives another {d} on the copy than on the original")
    rec.outcome(name)


def case_fn(case, rec):
    {"unmod": unmod_case, "helpers": helpers_case, "inter": inter_case, "copy": copy_case}[case["kind"]](case, rec)


OPS = ["fit", "fitm", "A", "B", "draw", "boot", "ci", "ext", "params", "tune", "eval", "sens", "contrast", "cate", "plot"]


def cases(tier, seed):
    th = tier == "thorough"
    L = []
    comps = ["APOS", "APOS-w", "QTE-PQ", "QTE-LPQ", "QTE-CVaR", "CL-PLR1", "CL-PLR2", "CL-PLIV2", "CL-IRM1"]
    for nm in list(catalog()) + comps:
        for first in OPS:
            L.append(dict(kind="unmod", cfg=nm, name=nm, first=first, depth=3 if th and nm in DEEP else 1 if nm in SKIP and not th else 2,
                          seed=seed))
    for w in ("data", "blp", "rdd", "framework", "learners"):
        L.append(dict(kind="helpers", what=w, name=w, seed=seed))
    for g, names in GROUPS.items():
        pairs = list(itertools.product(names, repeat=2)) if th else [(a, a) for a in names] + list(itertools.combinations(names, 2))
        for a, b in pairs:
            for s in itertools.product(SCRIPTS, repeat=2) if th else [(1, 2), (3, 4)] + ([(4, 4), (2, 4)] if g == "cont2" else []):
                if a == b and not th and s == (2, 4):
                    continue
                for one in (False, True) if th else ((s[0] + s[1]) % 2 == 0,):
                    L.append(dict(kind="inter", cfgs=[a, b], name=f"{a}+{b}", scripts=list(s), len=3, one=one, seed=seed))
    for names in (["PLR-2d", "PLR-iv-2d", "PLR-2d"], ["IRM-ate", "PQ-1", "DID-obs"], ["APO-1", "APO-2-norm", "APO-0-w"]):
        for s in ([1, 2, 4], [2, 3, 1]):
            L.append(dict(kind="inter", cfgs=names, name="+".join(names), scripts=s, len=3 if th else 2, one=True, seed=seed))
    for nm in list(catalog()) + comps:
        deep = nm in DEEP + comps
        L.append(dict(kind="copy", cfg=nm, name=nm, pre=2 if th and deep else 1, alpha=["fit", "params", "B"] if th and not deep
                      else ["fit"] if not deep else ["fit", "fitm", "B", "params", "boot", "sens"] if th else ["fitm", "params", "boot", "sens"],
                      seed=seed))
    return L


DEEP = ["PLR-po", "PLR-2d", "IRM-ate", "PQ-1", "LPQ-0", "SSM-non", "DIDCS-obs", "PLIV-2z", "APO-1"]

if __name__ == "__main__":
    Check("C12", case_fn, cases, rule="(a) all operation sequences of length 2 (thorough 3 on selected classes) over the full alphabet with a "
          "bit-exact fingerprint of every caller-owned object after each operation; (b) all interleavings of 2 (3) models' scripts on shared "
          "data and learner objects; (c) deep copies at every prefix x every operation on copy and original",
          assumptions=["the data object's current treatment (x, d) is a cursor when there are several treatments",
                       "random operations are re-seeded per model"]).main()
