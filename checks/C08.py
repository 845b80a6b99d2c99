"""C08 history independence: every sequence of public operations up to a depth is executed on the real objects; an explicit
abstract state (splitting, parameters, last fit and its options, inference calls) is carried along, and after every operation
everything the object reports is compared with a freshly built object brought directly into that abstract state."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc import observe as O
from mc.catalog import catalog, smpls_from_labels
from mc.core import Check
from mc.spy import CTL, clf, lin

SEED_B, SEED_D = 17, 23
FITS = {"F": {}, "Fm": dict(store_models=True, store_predictions=False), "Fs": dict(store_models=True), "Fe": "ext"}
RESULT_KEYS = ["coef", "se", "all_coef", "all_se", "psi", "psi_deriv", "psi_elements", "predictions", "nuisance_targets",
               "nuisance_loss", "models", "sensitivity_elements", "sensitivity_params", "boot_t_stat", "n_rep_boot",
               "boot_method", "t_stat", "pval", "summary", "framework"]


# ------------------------------------------------------------------ objects under test
class Single:
    """one model class"""

    def __init__(self, cfg, seed):
        self.cfg = cfg
        self.name = cfg.name
        self.df = cfg.frame(seed, blocks=4)
        b = self.df.block
        self.A = [smpls_from_labels(b, [0, 1, 0, 1]), smpls_from_labels(b, [0, 0, 1, 1])]
        self.B = [smpls_from_labels(b, [0, 1, 2, 1])]
        self.wbar = "wbar" in cfg.name

    def fresh(self):
        m = self.cfg.build(self.df, data=self.cfg.data(self.df), n_folds=2, n_rep=2)
        m.set_sample_splitting(self.A)
        return m

    def observe(self, m):
        return O.model(m)

    def ops(self):
        o = ["F", "Fm", "SA", "D", "P", "Q", "B", "R", "E"]
        if not self.wbar:  # weights_bar fixes the number of repetitions
            o.insert(3, "SB")
        if "biny" in self.name:  # drawn splittings are not stratified by the outcome: training parts with a single class
            o.remove("D")
        if self.cfg.ext:
            o.append("Fe")
        if self.cfg.sens:
            o.append("S")
        if self.cfg.tune:
            o.append("T")
        return o

    def ext(self, m):
        d = self.cfg.treats[-1]
        nm = m.params_names[0]
        n = len(self.df)
        base = 0.35 + 0.3 * (np.arange(n) % 7)[:, None] / 7 + 0.05 * np.arange(m.n_rep)[None, :]
        names = m.params_names if self.cfg.name.startswith("LPQ") else [nm]
        return {d: {k: base * (1 + 0.1 * i) for i, k in enumerate(names)}}

    def params(self, m, which):
        if which == "P":
            lr = m.params_names[0]
            return [(lr, d, {"lam": 5.0}) for d in m._dml_data.d_cols]
        lr = m.params_names[-1]
        return [(lr, m._dml_data.d_cols[0], [[{"lam": 2.0 + r + 3 * k} for k in range(m.n_folds)] for r in range(m.n_rep)])]

    def tune(self, m):
        grids = {k: {"lam": [0.5, 4.0]} for k in m.learner_names}
        m.tune(grids, n_folds_tune=2)

    def set_split(self, m, which):
        m.set_sample_splitting(getattr(self, which))

    def cur_split(self, m):
        return m.smpls

    def restore(self, m, split, params):
        m.set_sample_splitting(split)
        for lr, dd in params.items():
            for d, p in dd.items():
                if any(q is not None for q in p):
                    m.set_ml_nuisance_params(lr, d, p)

    def get_params(self, m):
        return {k: {d: [q for q in p] for d, p in v.items()} for k, v in m.params.items()}

    def readonly(self, m):
        fitted = m.framework is not None
        fs = [("summary", lambda: m.summary), ("str", lambda: str(m)), ("get_params", lambda: m.get_params(m.params_names[0]))]
        if fitted:
            fs += [("confint", lambda: m.confint()), ("confint.9", lambda: m.confint(level=0.9)),
                   ("p_adjust", lambda: m.p_adjust(method="bonferroni"))]
            if m.boot_t_stat is not None:
                fs += [("joint", lambda: m.confint(joint=True)), ("rw", lambda: m.p_adjust())]
            if m.nuisance_targets is not None:
                fs += [("evaluate", lambda: m.evaluate_learners([k for k in m.params_names if k not in self.nan_targets(m)],
                                                                metric=nan_mae))]
            if self.cfg.sens and m.sensitivity_params is not None:
                fs += [("sensitivity_summary", lambda: m.sensitivity_summary)]
            if self.cfg.sens:
                fs += [("benchmark", lambda: m.sensitivity_benchmark(["X2"]))]
            if self.cfg.name == "IRM-ate" and m.n_rep == 1:
                import pandas as pd

                fs += [("gate", lambda: m.gate(pd.DataFrame({"a": self.df.X2 > 0, "b": self.df.X2 <= 0}))),
                       ("cate", lambda: m.cate(pd.DataFrame({"c": np.ones(len(self.df)), "x": self.df.X2}))),
                       ("policy", lambda: m.policy_tree(pd.DataFrame({"x": self.df.X2}), depth=1))]
            if self.cfg.name == "PLR-po" and m.n_rep == 1 and m.predictions is not None:
                import pandas as pd

                fs += [("gate", lambda: m.gate(pd.DataFrame({"a": self.df.X2 > 0, "b": self.df.X2 <= 0}))),
                       ("cate", lambda: m.cate(pd.DataFrame({"c": np.ones(len(self.df)), "x": self.df.X2})))]
        return fs

    def nan_targets(self, m):
        return [k for k in m.params_names if not np.isfinite(m.nuisance_targets[k]).any(axis=0).all()]

    def errors(self, m):
        n = len(self.df)
        return [("n_jobs", lambda: m.fit(n_jobs_cv=1.5)), ("store", lambda: m.fit(store_models="yes")),
                ("ext", lambda: m.fit(external_predictions={"nope": {}})),
                ("split", lambda: m.set_sample_splitting([(np.arange(n // 2), np.arange(n // 2, n - 1))])),
                ("learner", lambda: m.set_ml_nuisance_params("ml_nope", "d", {"lam": 1})),
                ("treat", lambda: m.set_ml_nuisance_params(m.params_names[0], "nope", {"lam": 1})),
                ("grid", lambda: m.tune({"ml_nope": {}})),
                ("boot", lambda: m.bootstrap(method="nope")), ("level", lambda: m.confint(level=1.5)),
                ("eval", lambda: m.evaluate_learners(["nope"])), ("nboot", lambda: m.bootstrap(n_rep_boot=-1))]


def nan_mae(y_true, y_pred):
    return float(np.nanmean(np.abs(y_true - y_pred)))


class Comp:
    """composite models"""

    def __init__(self, name, seed):
        from mc.catalog import make_df

        self.name = name
        self.apos = name.startswith("APOS")
        kind = "lvl" if self.apos else ("iv" if "LPQ" in name else "bin")
        self.df = make_df(kind, 4, 2 if self.apos else 4, seed)
        b = self.df.block
        self.A = [smpls_from_labels(b, [0, 1, 0, 1]), smpls_from_labels(b, [0, 0, 1, 1])]
        self.B = [smpls_from_labels(b, [0, 1, 2, 1])]
        self.cfg = None

    def fresh(self):
        import doubleml as dml

        kw = {"z_cols": "z"} if "LPQ" in self.name else {}
        data = dml.DoubleMLData(self.df, "y", "d", x_cols=["X1", "X2"], **kw)
        if self.apos:
            m = dml.DoubleMLAPOS(data, ml_g=lin("ml_g", 1.0), ml_m=clf("ml_m", 2.0), treatment_levels=getattr(self, "levels", [2, 0, 1]), n_folds=2, n_rep=2,
                                 draw_sample_splitting=False)
        else:
            score = self.name.split("-")[1]
            g = lin("ml_g", 1.0) if score == "CVaR" else clf("ml_g", 1.0)
            m = dml.DoubleMLQTE(data, ml_g=g, ml_m=clf("ml_m", 2.0), quantiles=[0.4, 0.6], score=score, n_folds=2, n_rep=2,
                                draw_sample_splitting=False)
        m.set_sample_splitting(self.A)
        return m

    def observe(self, m):
        return O.composite(m)

    def ops(self):
        o = ["F", "Fm", "SA", "SB", "D", "B", "R", "E"]
        if self.apos:
            o += ["Fe", "S"]
        return o

    def ext(self, m):
        n = len(self.df)
        base = 0.35 + 0.3 * (np.arange(n) % 7)[:, None] / 7 + 0.05 * np.arange(m.n_rep)[None, :]
        return {0: {"ml_m": base}, 1: {"ml_g_d_lvl1": base * 2}}

    def set_split(self, m, which):
        m.set_sample_splitting(getattr(self, which))

    def cur_split(self, m):
        return m.smpls

    def get_params(self, m):
        return None

    def restore(self, m, split, params):
        m.set_sample_splitting(split)

    def readonly(self, m):
        fs = [("summary", lambda: m.summary), ("str", lambda: str(m))]
        if m.framework is not None:
            fs += [("confint", lambda: m.confint()), ("p_adjust", lambda: m.p_adjust(method="holm") if hasattr(m, "p_adjust") else None)]
            if m.boot_t_stat is not None:
                fs += [("joint", lambda: m.confint(joint=True))]
            if self.apos:
                fs += [("contrast", lambda: m.causal_contrast(reference_levels=0)), ("contrast2", lambda: m.causal_contrast([1, 2])),
                       ("benchmark", lambda: m.sensitivity_benchmark(["X2"]))]
        return fs

    def errors(self, m):
        n = len(self.df)
        return [("split", lambda: m.set_sample_splitting([(np.arange(n // 2), np.arange(n // 2, n - 1))])),
                ("ext", lambda: m.fit(external_predictions=[1])), ("boot", lambda: m.bootstrap(method="nope")),
                ("level", lambda: m.confint(level=1.5))]


class Clustered(Single):
    def __init__(self, name, seed):
        from mc.catalog import make_df

        two = name.endswith("2")
        cfg = catalog(1)[{"CL-PLR": "PLR-po", "CL-PLIV": "PLIV-po", "CL-IRM": "IRM-ate"}[name[:-1]]]
        super().__init__(cfg, seed)
        self.name = name
        df = self.df
        df["c1"] = df.block.astype(float)
        within = np.arange(len(df)) // 4
        df["c2"] = (within % 4).astype(float)
        self.ccols = ["c1", "c2"] if two else ["c1"]
        one = df.c1.to_numpy()
        sec = df.c2.to_numpy()

        def mk(l1, l2=None):
            sm, sc = [], []
            for k in sorted(set(l1)):
                a = np.array([c for c in range(4) if l1[c] == k], dtype=float)
                ac = np.array([c for c in range(4) if l1[c] != k], dtype=float)
                for q in ([None] if not two else sorted(set(l2))):
                    te, tr = np.isin(one, a), np.isin(one, ac)
                    tec, trc = [a], [ac]
                    if two:
                        b_ = np.array([c for c in range(4) if l2[c] == q], dtype=float)
                        bc = np.array([c for c in range(4) if l2[c] != q], dtype=float)
                        te, tr = te & np.isin(sec, b_), tr & np.isin(sec, bc)
                        tec.append(b_)
                        trc.append(bc)
                    sm.append((np.where(tr)[0], np.where(te)[0]))
                    sc.append((trc, tec))
            return sm, sc

        pa = [mk([0, 1, 0, 1], [0, 0, 1, 1]), mk([0, 0, 1, 1], [0, 1, 1, 0])]
        pb = [mk([0, 1, 1, 0], [1, 0, 1, 0])] if two else [mk([0, 1, 2, 1])]
        self.A = [[p[0] for p in pa], [p[1] for p in pa]]
        self.B = [[p[0] for p in pb], [p[1] for p in pb]]

    def fresh(self):
        import doubleml as dml

        data = dml.DoubleMLClusterData(self.df, "y", list(self.cfg.treats), cluster_cols=self.ccols, x_cols=["X1", "X2"],
                                       **self.cfg.data_kw)
        m = self.cfg.build(self.df, data=data, n_folds=2, n_rep=2)
        m.set_sample_splitting(*self.A)
        return m

    def ops(self):
        return [o for o in super().ops() if o not in ("B", "T")]

    def set_split(self, m, which):
        m.set_sample_splitting(*getattr(self, which))

    def cur_split(self, m):
        return [m.smpls, m.smpls_cluster]

    def restore(self, m, split, params):
        Single.restore(self, _Two(m), split, params)

    def readonly(self, m):
        return [f for f in super().readonly(m) if f[0] not in ("gate", "cate", "policy")]


class _Two:
    def __init__(self, m):
        self.m = m

    def set_sample_splitting(self, split):
        self.m.set_sample_splitting(*split)

    def set_ml_nuisance_params(self, *a):
        self.m.set_ml_nuisance_params(*a)


def subject(name, seed):
    if name.startswith("CL-"):
        return Clustered(name, seed)
    if name.startswith(("APOS", "QTE")):
        return Comp(name, seed)
    return Single(catalog(2)[name], seed)


# ------------------------------------------------------------------ exploration
class Abs:
    """abstract state: what the object should report is a function of this alone"""

    def __init__(self, split, params):
        self.split, self.params = split, params
        self.fit = None  # (split, params, kind)
        self.boot = self.sens = False
        self.loose = False  # a splitting has been drawn since the last fit: reported results are unspecified

    def key(self):
        from mc.core import canon, h

        return h((canon(self.split), canon(O.snap(self.params)), None if self.fit is None else
                  (canon(self.fit[0]), canon(O.snap(self.fit[1])), self.fit[2]), self.boot, self.sens))


def do_fit(S, m, kind):
    a = FITS[kind]
    m.fit(**(dict(external_predictions=S.ext(m)) if a == "ext" else a))


def expected(S, a, cache):
    k = a.key()
    if k not in cache:
        m = S.fresh()
        if a.fit is not None:
            S.restore(m, a.fit[0], a.fit[1])
            do_fit(S, m, a.fit[2])
            if a.boot:
                np.random.seed(SEED_B)
                m.bootstrap(n_rep_boot=5)
            if a.sens:
                m.sensitivity_analysis(cf_y=0.05, cf_d=0.1)
            if O.diff(O.snap(a.fit[1]), O.snap(a.params)):  # parameters set after the fit
                for lr, dd in a.params.items():
                    for d, p in dd.items():
                        m.set_ml_nuisance_params(lr, d, p if any(q is not None for q in p) else None)
        else:
            S.restore(m, a.split, a.params)
        cache[k] = S.observe(m)
    return cache[k]


def step(S, m, a, op, rec, new):
    """execute one operation; update the abstract state; returns False when a violation was recorded"""
    if op in FITS:
        do_fit(S, m, op)
        a.fit, a.boot, a.sens, a.loose = (S.cur_split(m), S.get_params(m), op), False, False, False
    elif op in ("SA", "SB"):
        S.set_split(m, op[1])
        a.split, a.params = getattr(S, op[1]), S.get_params(m)
        a.fit, a.boot, a.sens, a.loose = None, False, False, False
    elif op == "D":
        np.random.seed(SEED_D)
        m.draw_sample_splitting()
        a.split, a.loose = S.cur_split(m), True
    elif op in ("P", "Q"):
        for lr, d, p in S.params(m, op):
            m.set_ml_nuisance_params(lr, d, p)
        a.params = S.get_params(m)
    elif op == "T":
        np.random.seed(3)
        S.tune(m)
        a.params = S.get_params(m)
    elif op == "B":
        if m.framework is None:
            return True
        np.random.seed(SEED_B)
        m.bootstrap(n_rep_boot=5)
        a.boot = True
    elif op == "S":
        if m.framework is None:
            return True
        m.sensitivity_analysis(cf_y=0.05, cf_d=0.1)
        a.sens = True
    elif op in ("R", "E"):
        before = S.observe(m) if new else None
        for nm, f in S.readonly(m) if op == "R" else S.errors(m):
            rec.step()
            try:
                f()
                bad = op == "E"
            except Exception:
                if op == "R":
                    raise
                bad = False
            if bad:
                rec.fail(f"accepted:{S.name}:{nm}", f"the invalid call {nm} was accepted")
                return False
            d = O.diff(S.observe(m), before) if new else None
            if d:
                rec.fail(f"changed:{nm}:{d}", f"{S.name}: {nm} ({'read-only' if op == 'R' else 'rejected'}) changed {d}")
                return False
    return True


def case_fn(case, rec):
    S = subject(case["cfg"], case["seed"])
    CTL.reset(log=False)
    cache, seen = {}, set()
    first = case["first"]
    ops = S.ops()
    if first not in ops:
        return
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = (first,) + rest + ("F",)
        m = S.fresh()
        a = Abs(S.A, S.get_params(m))
        rec.trace()
        for i, op in enumerate(seq):
            rec.step()
            new = seq[: i + 1] not in seen
            seen.add(seq[: i + 1])
            if not step(S, m, a, op, rec, new):
                return
            if op in ("R", "E") or not new:
                continue
            rec.state(S.name, a.key(), a.loose)
            if a.loose:
                continue
            want, got = expected(S, a, cache), S.observe(m)
            d = O.diff(got, want)
            if d:
                rec.fail(f"history:{S.name}:{d}", f"after {seq[: i + 1]} {d} differs from a freshly built object")
                return
            if op in FITS:
                rec.outcome(S.name, np.round(m.coef, 9).tolist(), op)


DEEP = ["PLR-po", "PLR-iv-2d", "IRM-ate", "IIVM", "APO-1", "PQ-1", "LPQ-0", "CVaR-0", "SSM-mar", "SSM-non", "DID-obs", "DIDCS-obs",
        "PLIV-2z", "PLIV-pXZ"]
DEEP3 = ["PLR-po"]
COMPS = ["APOS", "QTE-PQ", "QTE-LPQ", "QTE-CVaR"]
CLUST = ["CL-PLR1", "CL-PLR2", "CL-PLIV2", "CL-IRM1"]
SKIP = {"IRM-ate-norm", "IRM-w", "IIVM-norm", "IIVM-noNT", "APO-2-norm", "APO-0-w", "APO-1-biny", "PQ-0", "PQ-1-nn", "LPQ-0-nn", "LPQ-1",
        "LPQ-1-nn", "CVaR-1", "CVaR-1-nn", "SSM-mar-norm", "SSM-non-norm", "SSM-non-biny", "DID-obs-nn", "DID-exp-nn", "DIDCS-obs-nn",
        "DIDCS-exp-nn", "DIDCS-obs-biny", "PLR-call2", "PLIV-call", "IIVM-call"}  # option variants left to the thorough tier
ALLOPS = ["F", "Fm", "SA", "SB", "D", "P", "Q", "B", "R", "E", "Fe", "S", "T"]


def cases(tier, seed):
    thor = tier == "thorough"
    for nm in COMPS + CLUST + [c for c in catalog() if thor or c not in SKIP]:
        deep = nm in DEEP
        depth = (4 if nm in ("PLR-po", "IRM-ate", "PQ-1") else 3) if thor else (3 if nm in DEEP3 else 2)
        for o in ALLOPS:
            yield dict(cfg=nm, name=nm, first=o, depth=depth, seed=seed)


if __name__ == "__main__":
    Check("C08", case_fn, cases, rule="all operation sequences up to the depth (followed by a fit) over fit with four storage/external "
          "options, two user splittings, redraw, parameter setting (global, fold-specific), tuning, bootstrap, sensitivity analysis, a "
          "bundle of read-only calls and a bundle of rejected calls; after every operation everything reported is compared with a fresh "
          "object in the same abstract state", assumptions=["learners are deterministic; bootstrap and draws are re-seeded"]).main()
