"""C10 external predictions: every subset of (treatment, nuisance function) pairs, with the model's own and with foreign values;
learner calls, stored predictions, untouched functions, results and caller arrays are monitored; every single-defect malformed
dictionary must be rejected before a learner is touched."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc import observe as O
from mc.catalog import catalog, idmap, nonestimated, smpls_from_labels
from mc.core import Check, close, scaled_close
from mc.scorecases import ladder_labels
from mc.spy import CTL, clf, lin

# functions whose estimation uses the predictions of other functions
DEPENDS = {"PLR-iv": {"ml_g": {"ml_l", "ml_m"}}, "PLR-iv-2d": {"ml_g": {"ml_l", "ml_m"}}, "PLR-call": {"ml_g": {"ml_l", "ml_m"}},
           "PLIV-iv": {"ml_g": {"ml_l", "ml_m", "ml_r"}}, "PLIV-call": {}}


def depends(cfg):
    if cfg.name.startswith("PQ"):
        return {"ml_g": {"ml_m"}}
    return DEPENDS.get(cfg.name, {})


def lam_of(names, i, it):
    return 0.31 + 0.17 * i + 1.03 * it


def build(cfg, df, reps, lams=True, learners=None):
    m = cfg.build(df, data=cfg.data(df), n_rep=len(reps), learners=learners)
    m.set_sample_splitting([smpls_from_labels(df.block, r) for r in reps])
    if lams:
        for i, nm in enumerate(m.params_names):
            for it, d in enumerate(cfg.treats):
                m.set_ml_nuisance_params(nm, d, {"lam": lam_of(m.params_names, i, it)})
    CTL.reset(idmap(df))
    return m


def foreign(cfg, df, names, n_rep, spread=0.6):
    """distinct, deterministic values for every (treatment, function, repetition); propensities inside and outside the bounds"""
    out = {}
    u = (np.arange(len(df)) * 7 % 11) / 10.0
    for it, d in enumerate(cfg.treats):
        for i, nm in enumerate(names):
            role = cfg.roles.get(nm)
            a = np.empty((len(df), n_rep))
            for r in range(n_rep):
                v = np.roll(u, 3 * i + 5 * r + 2 * it)
                a[:, r] = 0.2 + spread * v + 0.01 * r if role is None or role.proba else 2 * v - 0.7 + 0.1 * i + 0.05 * r + 0.3 * it
            out[d, nm] = a
    return out


def to_dict(vals, pairs, order="C"):
    ext = {}
    for d, nm in pairs:
        ext.setdefault(d, {})[nm] = np.array(vals[d, nm], order=order)
    return ext


def clipped(m, cfg, nm, a):
    if cfg.roles[nm].clip:
        thr = m.trimming_threshold
        return np.clip(a, thr, 1 - thr)
    return a


def results(m):
    return {"coef": m.coef, "se": m.se, "all_coef": m.all_coef, "all_se": m.all_se, "psi": m.psi, "psi_deriv": m.psi_deriv}


def compare(rec, key, a, b, what):
    for k in a:
        if not scaled_close(a[k], b[k], rtol=1e-7):
            rec.fail(f"{key}:{k}", f"{what}: {k} is {np.ravel(a[k])[:3]}, expected {np.ravel(b[k])[:3]}")
            return False
    return True


def subset_case(case, rec):
    cfg = catalog(len(case["reps"]))[case["cfg"]]
    reps = case["reps"]
    df = cfg.frame(case["seed"], blocks=len(reps[0]))
    fixed = set(nonestimated(cfg))
    base = build(cfg, df, reps)
    base.fit()
    names = [k for k in base.params_names if k not in fixed]
    pairs = [(d, nm) for d in cfg.treats for nm in names]
    own = {(d, nm): base.predictions[nm][:, :, it].copy() for it, d in enumerate(cfg.treats) for nm in names}
    forn = foreign(cfg, df, names, len(reps))
    zero = {(d, nm): np.zeros((len(df), len(reps)), dtype=float if it else int) if not cfg.roles[nm].proba or nm == "ml_r0" else np.full((len(df), len(reps)), 0.5)
            for it, d in enumerate(cfg.treats) for nm in names}
    values = {"own": own, "foreign": forn, "zero": zero, "none": own}
    all_or_none = cfg.name.startswith("LPQ")
    dep = depends(cfg)
    for k in range(0, len(pairs) + 1):
        for S in itertools.combinations(pairs, k):
            for mode in (("own", "foreign", "zero") if k in (1, len(pairs)) else ("own", "foreign")) if S else ("none",):
                order = "F" if (k + len(reps)) % 2 else "C"
                ext = to_dict(values[mode], S, order)
                if not S and case["empty"] == "inner":
                    ext = {d: {} for d in cfg.treats}
                keep = O.snap(ext)
                m = build(cfg, df, reps)
                rec.state(cfg.name, reps, S, mode)
                rec.trace()
                rec.step()
                if all_or_none and 0 < k < len(pairs):
                    try:
                        m.fit(external_predictions=ext)
                        rec.fail(f"partial-accepted:{cfg.name}", f"{S}: partial external predictions accepted")
                        return
                    except ValueError:
                        rec.expect(CTL.n_calls == 0, f"partial-late:{cfg.name}", f"{S}: learners fitted before the rejection")
                        rec.note("partial-rejected")
                        continue
                m.fit(external_predictions=ext, store_models=case["models"])
                what = f"{cfg.name} {S} {mode}"
                if O.diff(O.snap(ext), keep):
                    rec.fail(f"modified:{cfg.name}", f"{what}: the supplied arrays have been changed at {O.diff(O.snap(ext), keep)}")
                    return
                if not monitor(rec, cfg, df, m, base, names, S, values[mode], reps, what, dep, case):
                    return
                Sset = set(S)
                if mode == "own" and all(not (dep.get(nm, set()) & {n2 for d2, n2 in S if d2 == d}) or (d, nm) in Sset
                                         or not cfg.name.startswith("PQ") for d, nm in pairs) or not S:
                    if k == len(pairs) and cfg.name.startswith(("PQ", "LPQ")):
                        # the starting value of the root search needs the preliminary estimates: other roots may be found
                        same = np.isclose(m.all_coef, base.all_coef, rtol=1e-7, atol=1e-9)
                        rec.note("lpq-same-root", int(same.sum()))
                        rec.note("lpq-other-root", int((~same).sum()))
                        y = df["y"].to_numpy()[:, None]
                        lo, hi = np.minimum(m.all_coef, base.all_coef), np.maximum(m.all_coef, base.all_coef)
                        out = (y <= lo[0]) | (y > hi[0]) | (df["d"].to_numpy() != cfg.kw["treatment"])[:, None]
                        sc = np.abs(base.psi).max()
                        if not close(np.where(out, m.psi[:, :, 0], 0.0), np.where(out, base.psi[:, :, 0], 0.0), rtol=1e-6, atol=1e-7 * sc):
                            rec.fail(f"own:{cfg.name}:psi", f"{what}: score elements differ from those of the estimated predictions")
                            return
                    elif not compare(rec, f"own:{cfg.name}", results(m), results(base), what):
                        return
                # everything supplied gives the same result as supplying S and estimating the rest
                if not cfg.name.startswith(("PQ", "LPQ")) or k == len(pairs):
                    full = {d: {nm: m.predictions[nm][:, :, it].copy() for nm in names
                                if not unneeded(cfg, nm, {n2 for d2, n2 in S if d2 == d}) or (d, nm) in Sset}
                            for it, d in enumerate(cfg.treats)}
                    m2 = build(cfg, df, reps, learners=case["dummy"] and dummies(cfg))
                    m2.fit(external_predictions=full)
                    rec.expect(CTL.n_calls == 0, f"fitted-all:{cfg.name}", f"{what}: {CTL.n_calls} learner calls although everything is supplied")
                    if not compare(rec, f"completed:{cfg.name}", results(m2), results(m), what):
                        return
                rec.outcome(cfg.name, S, mode, np.round(m.coef, 8).tolist())


def dummies(cfg):
    from doubleml.utils import DMLDummyClassifier, DMLDummyRegressor

    class R(DMLDummyRegressor):
        def __init__(self, lam=1.0):
            self.lam = lam

        def set_params(self, **k):
            return self

    class C(DMLDummyClassifier):
        def __init__(self, lam=1.0):
            self.lam = lam

        def set_params(self, **k):
            return self

    return {a: (R if t == "r" else C)() for a, (t, _) in cfg.args.items()}


def monitor(rec, cfg, df, m, base, names, S, vals, reps, what, dep, case):
    fits = {}
    for e in CTL.events:
        if e["kind"] == "fit":
            fits[round(e["lam"], 6)] = fits.get(round(e["lam"], 6), 0) + 1
    allnames = m.params_names
    n_folds = len(set(reps[0]))
    S = set(S)
    for it, d in enumerate(cfg.treats):
        for nm in names:
            c = fits.get(round(lam_of(allnames, allnames.index(nm), it), 6), 0)
            if (d, nm) in S:
                if c:
                    rec.fail(f"fitted:{cfg.name}:{nm}", f"{what}: the learner of {nm} was fitted {c} times")
                    return False
                want = clipped(m, cfg, nm, vals[d, nm])
                if not close(m.predictions[nm][:, :, it], want, rtol=1e-12, atol=1e-14):
                    rec.fail(f"not-used:{cfg.name}:{nm}", f"{what}: stored predictions of {nm} for {d} are not the supplied ones")
                    return False
                if case["models"]:
                    for r in range(len(reps)):
                        rec.expect(not has_model(m.models[nm][d][r]), f"model:{cfg.name}:{nm}", f"{what}: a model is stored for supplied predictions")
            else:
                needed = n_folds * len(reps)
                if unneeded(cfg, nm, {n2 for d2, n2 in S if d2 == d}):
                    continue
                if c < needed:
                    rec.fail(f"not-fitted:{cfg.name}:{nm}", f"{what}: {nm} was fitted {c} times, expected at least {needed}")
                    return False
                if not (dep.get(nm, set()) & {n2 for d2, n2 in S if d2 == d}):
                    if not close(m.predictions[nm][:, :, it], base.predictions[nm][:, :, it]):
                        rec.fail(f"others:{cfg.name}:{nm}", f"{what}: predictions of {nm} for {d} changed")
                        return False
                    if not close(m.nuisance_loss[nm][:, it], base.nuisance_loss[nm][:, it]):
                        rec.fail(f"others-loss:{cfg.name}:{nm}", f"{what}: loss of {nm} for {d} changed")
                        return False
    return True


def unneeded(cfg, nm, supplied):
    """ml_l only serves to estimate ml_g in the IV-type score of the PLR"""
    return cfg.name.startswith("PLR-iv") and nm == "ml_l" and "ml_g" in supplied


def has_model(o):
    if isinstance(o, (list, tuple)):
        return any(has_model(x) for x in o)
    return o is not None


def bad_case(case, rec):
    cfg = catalog(2)[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=4)
    reps = [[0, 1, 0, 1], [0, 0, 1, 1]]
    n = len(df)
    m0 = build(cfg, df, reps)
    names = m0.params_names
    d0 = cfg.treats[-1]
    good = np.full((n, 2), 0.4)
    bads = {}
    if cfg.ext:
        for x in ([], "d", good, 1):
            bads[f"outer-{type(x).__name__}"] = (x, TypeError)
        bads["treat"] = ({"nope": {}}, ValueError)
        bads["treat-mixed"] = ({d0: {names[0]: good}, "nope": {names[0]: good}}, ValueError)
        for x in ([good], good, None):
            bads[f"inner-{type(x).__name__}"] = ({d0: x}, TypeError)
        for nm in names:
            rest = {k: good for k in names if k != nm}
            for bad in ("ml_nope", nm + "x", nm.upper(), ""):
                bads[f"learner-{nm}-{bad}"] = ({d0: {**rest, bad: good}}, ValueError)
            for t, x in (("list", good.tolist()), ("none", None), ("scalar", 0.4), ("df", __import__("pandas").DataFrame(good))):
                bads[f"type-{nm}-{t}"] = ({d0: {**rest, nm: x}}, TypeError)
            for t, x in (("1d", good[:, 0]), ("reps", np.full((n, 3), 0.4)), ("reps1", good[:, :1]), ("short", good[:-1]), ("transposed", good.T),
                         ("3d", good[:, :, None]), ("long", np.full((n + 1, 2), 0.4))):
                bads[f"shape-{nm}-{t}"] = ({d0: {**rest, nm: x}}, ValueError)
    else:
        bads["not-implemented"] = ({d0: {names[0]: good}}, NotImplementedError)
        bads["not-implemented-empty"] = ({}, NotImplementedError)
    for fitted in (False, True):
        m = build(cfg, df, reps)
        if fitted:
            m.fit()
        for k, (x, exc) in bads.items():
            CTL.reset(log=False)
            before = O.model(m)
            rec.state(cfg.name, k, fitted)
            rec.trace()
            rec.step()
            try:
                m.fit(external_predictions=x)
                rec.fail(f"accepted:{cfg.name}:{k}", f"malformed external predictions ({k}) were accepted")
                continue
            except exc:
                pass
            except Exception as e:
                rec.fail(f"error-type:{cfg.name}:{k}", f"{k}: {type(e).__name__}: {e} instead of {exc.__name__}")
                continue
            rec.expect(CTL.n_calls == 0, f"late:{cfg.name}:{k}", f"{k}: {CTL.n_calls} learner calls before the rejection")
            dd = O.diff(O.model(m), before)
            rec.expect(dd is None, f"changed:{cfg.name}:{k}", f"{k}: the rejected call changed {dd}")
            rec.outcome(k.split("-")[0], exc.__name__)


def apos_case(case, rec):
    import doubleml as dml
    from mc.catalog import make_df

    df = make_df("lvl", 4, 2, case["seed"])
    reps = case["reps"]
    levels = [2, 0, 1]
    n = len(df)

    def mk():
        data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"])
        m = dml.DoubleMLAPOS(data, ml_g=lin("ml_g", 1.0), ml_m=clf("ml_m", 2.0), treatment_levels=levels, n_folds=2, n_rep=len(reps),
                             draw_sample_splitting=False)
        m.set_sample_splitting([smpls_from_labels(df.block, r) for r in reps])
        CTL.reset(log=False)
        return m

    names = ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"]
    base = mk()
    base.fit()
    own = {(l, nm): base.modellist[i].predictions[nm][:, :, 0].copy() for i, l in enumerate(levels) for nm in names}
    u = (np.arange(n) * 7 % 11) / 10.0
    forn = {(l, nm): np.column_stack([0.25 + 0.5 * np.roll(u, 3 * i + 5 * r + j) for r in range(len(reps))])
            for i, l in enumerate(levels) for j, nm in enumerate(names)}
    pairs = [(l, nm) for l in levels for nm in names]
    sizes = range(len(pairs) + 1) if case["deep"] else (0, 1, 2, 7, 8, 9)
    for k in sizes:
        for S in itertools.combinations(pairs, k):
            for mode, vals in (("own", own), ("foreign", forn)) if S else (("none", own),):
                ext = to_dict(vals, S)
                keep = O.snap(ext)
                m = mk()
                rec.state("APOS", reps, S, mode)
                rec.trace()
                rec.step()
                m.fit(external_predictions=ext)
                what = f"APOS {S} {mode}"
                calls = CTL.n_calls
                if O.diff(O.snap(ext), keep):
                    rec.fail("modified:APOS", f"{what}: supplied arrays changed")
                    return
                nf = sum(2 for _ in pairs) - 2 * len(S)
                if calls != nf * 2 * len(reps):  # one fit and one predict per fold and estimated function
                    rec.fail("calls:APOS", f"{what}: {calls} learner calls, expected {nf * 2 * len(reps)}")
                    return
                for i, l in enumerate(levels):
                    for nm in names:
                        got = m.modellist[i].predictions[nm][:, :, 0]
                        want = vals[l, nm] if (l, nm) in S else own[l, nm]
                        if nm == "ml_m":
                            want = np.clip(want, 0.01, 0.99)
                        if not close(got, want, rtol=1e-10):
                            rec.fail(f"predictions:APOS:{nm}", f"{what}: predictions of {nm} for level {l}")
                            return
                if mode != "foreign":
                    if not (scaled_close(m.coef, base.coef) and scaled_close(m.se, base.se) and scaled_close(m.framework.scaled_psi, base.framework.scaled_psi)):
                        rec.fail("own:APOS", f"{what}: own predictions do not reproduce the results")
                        return
                rec.outcome("APOS", S, mode, np.round(m.coef, 8).tolist())
    good = np.full((n, len(reps)), 0.4)
    bads = [("outer", [good], TypeError), ("level", {7: {"ml_m": good}}, ValueError), ("inner", {0: good}, TypeError),
            ("learner", {0: {"ml_g": good}}, ValueError), ("learner2", {0: {"ml_m": good, "x": good}}, ValueError),
            ("shape", {1: {"ml_m": good[:-1]}}, ValueError), ("type", {1: {"ml_m": good.tolist()}}, TypeError),
            ("shape0", {2: {"ml_m": good[:, 0]}}, ValueError)]
    for nm, x, exc in bads:
        m = mk()
        rec.state("APOS", nm)
        rec.trace()
        try:
            m.fit(external_predictions=x)
            rec.fail(f"accepted:APOS:{nm}", "malformed external predictions accepted")
        except exc:
            if nm in ("outer", "level", "inner", "learner", "learner2"):
                rec.expect(CTL.n_calls == 0, f"late:APOS:{nm}", "learners fitted before the rejection")


def none_case(case, rec):
    """composites without support reject anything but None before a learner is fitted"""
    import doubleml as dml
    from mc.catalog import make_df

    df = make_df("bin", 4, 4, case["seed"])
    for score in ("PQ", "CVaR"):
        data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"])
        m = dml.DoubleMLQTE(data, ml_g=clf("g") if score == "PQ" else lin("g"), ml_m=clf("m"), quantiles=[0.4, 0.5], score=score, n_folds=2)
        for x in ({}, {"d": {}}, {"d": {"ml_m": np.full((len(df), 1), 0.5)}}):
            CTL.reset(log=False)
            rec.state(score, repr(x)[:30])
            rec.trace()
            rec.step()
            try:
                m.fit(external_predictions=x)
                rec.fail(f"accepted:QTE-{score}", f"{x} accepted")
            except NotImplementedError:
                rec.expect(CTL.n_calls == 0, f"late:QTE-{score}", "learners fitted before the rejection")


def case_fn(case, rec):
    {"subset": subset_case, "bad": bad_case, "apos": apos_case, "none": none_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    cat = catalog()
    one, two = [[0, 1, 0, 1]], [[0, 1, 0, 1], [0, 1, 1, 0]]
    three = [[0, 1, 2, 1], [0, 1, 1, 2]]
    for s in ([seed] if not thor else [seed, seed + 41, seed + 97]):
        for nm, c in cat.items():
            if c.ext:
                for reps in (one, two, three) if thor or c.nested is False else (two,):
                    yield dict(kind="subset", cfg=nm, name=nm, reps=reps, empty="inner" if len(reps) == 1 else "outer",
                               models=len(reps) == 2, dummy=len(reps) == 1, seed=s)
                yield dict(kind="subset", cfg=nm, name=nm, reps=ladder_labels(5, 5, 4), empty="outer", models=False, dummy=False, seed=s)
        for reps in (one, two) if not thor else (one, two, three[:1]):
            yield dict(kind="apos", name="APOS", reps=reps if reps is not three else [[0, 1, 0, 0]], deep=thor, seed=s)
    for nm in cat:
        yield dict(kind="bad", cfg=nm, name=nm, seed=seed)
    yield dict(kind="none", name="QTE", seed=seed)


if __name__ == "__main__":
    Check("C10", case_fn, cases, rule="every subset of (treatment, nuisance function) pairs x own/foreign values x one and two repetitions for "
          "all model configurations supporting external predictions, subsets of (level, function) pairs for APOS, and all single-defect "
          "malformed dictionaries for all configurations", assumptions=["learners are deterministic"]).main()
