"""C18 stored predictions, targets, models and losses: every configuration x splitting x storage options x element types (x supplied
predictions), each stored model re-applied to each fold, every subset of functions evaluated with a recording metric."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc.catalog import catalog, idmap, nonestimated, smpls_from_labels
from mc.core import Check, close
from mc.scorecases import ladder_labels
from mc.honesty import est_target_ok
from mc.spy import CTL

SPL = {"1": [[0, 1, 0, 1]], "2": [[0, 1, 1, 0], [0, 0, 1, 1]], "3": [[0, 1, 2, 1], [0, 1, 1, 2]], "u": [[0, 1, 1, 1]], "L": ladder_labels(5, 5, 4), "T": ladder_labels(10, 10, 1)}


def int_frame(df):
    """integer columns wherever the values are integers"""
    out = df.copy()
    for c in ("d", "y", "z", "t", "s"):
        if c in out and np.array_equal(out[c], out[c].round()):
            out[c] = out[c].astype(int)
    return out


def results(m):
    return {"coef": m.coef, "se": m.se, "all_coef": m.all_coef, "all_se": m.all_se, "psi": m.psi}


def same(a, b):
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True) for k in a)


def apply_model(model, role, X, thr):
    """the stored model's prediction at X, under any order of the columns"""
    first = True
    for perm in itertools.permutations(range(X.shape[1])):
        XX = X[:, perm]
        if role.proba:
            p = model.predict_proba(XX)
            p = p[:, 1] if p.shape[1] == 2 else model.predict(XX)
        else:
            p = model.predict(XX)
        p = np.asarray(p, dtype=float)
        yield np.clip(p, thr, 1 - thr) if role.clip else p
        if first and X.shape[1] > 5:
            return
        first = False


def check_models(rec, cfg, df, m, smpls, opts, key, skip=()):
    thr = opts.get("trimming_threshold", 1e-2)
    treats = cfg.treats
    for it, d_col in enumerate(treats):
        for ir, rep in enumerate(smpls):
            for name, role in cfg.roles.items():
                mods = m.models[name][d_col][ir]
                if name in skip:
                    rec.expect(mods is None, f"models-external:{key}:{name}", "a model is stored for a supplied prediction")
                    continue
                if not rec.expect(isinstance(mods, list) and len(mods) == len(rep), f"models-shape:{key}:{name}", f"stored models: {type(mods)}"):
                    continue
                X = df[cfg.x_for(df, name, d_col)].to_numpy(dtype=float)
                for k, (tr, te) in enumerate(rep):
                    rec.step()
                    XX = X[te]
                    if cfg.name.startswith("SSM-non") and name != "ml_pi":
                        Xp = df[cfg.x_for(df, "ml_pi", d_col)].to_numpy(dtype=float)[te]
                        XX = np.column_stack((XX, m.models["ml_pi"][d_col][ir][k].predict_proba(Xp)[:, 1]))
                    want = m.predictions[name][te, ir, it]
                    if not any(close(p, want, rtol=1e-9, atol=1e-11) for p in apply_model(mods[k], role, XX, thr)):
                        rec.fail(f"models:{key}:{name}", f"stored model of {name} (treatment {d_col}, repetition {ir}, fold {k}) applied to the test part does not give the stored predictions")
                        return False
    return True


def check_targets(rec, cfg, df, m, smpls, opts, key, skip=(), fits=()):
    n = len(df)
    for it, d_col in enumerate(cfg.treats):
        for ir, rep in enumerate(smpls):
            slot = {r: m.predictions[r][:, ir, it] for r in m.params_names}
            for name, role in cfg.roles.items():
                rec.step()
                t = m.nuisance_targets[name][:, ir, it]
                mask = role.mask(df) if role.mask is not None else np.ones(n, dtype=bool)
                if name in skip and np.isnan(t).all():
                    continue
                if role.target is not None:
                    if not close(t, np.where(mask, role.target(df, d_col), np.nan)):
                        rec.fail(f"targets:{key}:{name}", f"stored targets of {name} (repetition {ir}) are not the observed variable on its subsample and missing elsewhere: {t[:6]}")
                    continue
                if name in skip or np.isnan(t).all() and cfg.name.startswith("PLIV-pXZ"):
                    continue
                if np.isnan(t[mask]).any() or (role.nested and not np.isnan(t[~mask]).all()):
                    rec.fail(f"targets-missing:{key}:{name}", f"stored targets of {name} are missing on its subsample or present outside of it")
                    continue
                if not role.nested:
                    ok = est_target_ok(cfg, name, df, d_col, np.arange(n), t, slot, opts)
                    rec.expect(ok is not False, f"targets:{key}:{name}", "stored targets are not the documented transformation")
                    continue
                for k, (tr, te) in enumerate(rep):
                    # targets of the test part and labels the fold's model was fitted on follow one rule
                    te = np.asarray([i for i in te if mask[i]], dtype=int)
                    fid = m.models[name][d_col][ir][k].fit_id_ if m.models is not None else None
                    rows, lab = te, t[te]
                    if fid in fits:
                        rows = np.concatenate((rows, np.array(fits[fid]["rows"], dtype=int)))
                        lab = np.concatenate((lab, fits[fid]["y"]))
                    ok = est_target_ok(cfg, name, df, d_col, rows, lab, slot, opts)
                    rec.expect(ok is not False, f"targets:{key}:{name}", f"stored targets of {name} on fold {k} and the labels its model was fitted on do not follow one rule")


def check_loss(rec, cfg, df, m, key):
    for name in m.params_names:
        got = m.nuisance_loss[name]
        role = cfg.roles.get(name)
        base = role.learner if role is not None else next(a for a in cfg.args if name.startswith(a))
        isclf = cfg.args[base][0] == "c"
        if not rec.expect(got.shape == (m.n_rep, len(cfg.treats)), f"loss-shape:{key}:{name}", str(got.shape)):
            continue
        for ir in range(m.n_rep):
            for it in range(len(cfg.treats)):
                rec.step()
                p, t = m.predictions[name][:, ir, it], m.nuisance_targets[name][:, ir, it]
                o = ~np.isnan(t)
                if not o.any():
                    want = np.nan
                elif isclf:
                    q = np.clip(p[o], 1e-15, 1 - 1e-15)
                    want = -np.mean(t[o] * np.log(q) + (1 - t[o]) * np.log(1 - q))
                else:
                    want = np.sqrt(np.mean((p[o] - t[o]) ** 2))
                if not close(got[ir, it], want, rtol=1e-9):
                    rec.fail(f"loss:{key}:{name}", f"loss of {name} (repetition {ir}) is {got[ir, it]}, the {'log loss' if isclf else 'RMSE'} of the stored pairs is {want}")
        lines = [l for l in str(m).splitlines() if l.startswith(f"Learner {name} ") and "[" in l]
        rec.expect(len(lines) == 1 and ("Log Loss" if isclf else "RMSE") in lines[0], f"loss-label:{key}:{name}", f"report lines {lines}")


def check_eval(rec, cfg, m, key, full):
    names = list(m.params_names)
    subs = [list(c) for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)] if full else [[x] for x in names]
    for sub in subs + [None, names[::-1]]:
        calls = []

        def metric(y_true, y_pred):
            calls.append((np.array(y_true), np.array(y_pred)))
            return float(len(calls))

        ev = m.evaluate_learners(sub, metric=metric) if sub is not None else m.evaluate_learners(metric=metric)
        rec.step()
        want = names if sub is None else sub
        if not rec.expect(set(ev) == set(want) and len(calls) == len(want) * m.n_rep * len(cfg.treats), f"eval-keys:{key}", f"subset {sub}: {sorted(ev)}, {len(calls)} evaluations"):
            continue
        used = set()
        for nm in want:
            for ir in range(m.n_rep):
                for it in range(len(cfg.treats)):
                    v = int(ev[nm][ir, it])
                    yt, yp = calls[v - 1]
                    used.add(v)
                    ok = yt.shape == yp.shape == (1, m._dml_data.n_obs) and np.array_equal(yt[0], m.nuisance_targets[nm][:, ir, it], equal_nan=True)
                    ok = ok and np.array_equal(yp[0], m.predictions[nm][:, ir, it], equal_nan=True)
                    rec.expect(ok, f"eval:{key}:{nm}", f"subset {sub}: the metric reported for {nm} (repetition {ir}, treatment {it}) was evaluated on another pair")
        rec.expect(len(used) == len(calls), f"eval-used:{key}", "a metric value is reported twice")
    # the default metric is the root mean squared error over the pairs whose target is not missing
    if not any(np.isnan(m.nuisance_targets[nm]).all(axis=0).any() for nm in names):
        ev = m.evaluate_learners()
        for nm in names:
            T, P = m.nuisance_targets[nm], m.predictions[nm]
            want = np.sqrt(np.nanmean((T - P) ** 2, axis=0))
            rec.expect(close(ev[nm], want, rtol=1e-9), f"eval-default:{key}:{nm}", f"default metric of {nm}: {ev[nm].tolist()}, root mean squared error of the stored pairs: {want.tolist()}")
            rec.step()
    for bad, exc in ((["nope"], ValueError), ([names[0], "nope"], ValueError)):
        try:
            m.evaluate_learners(bad, metric=lambda y_true, y_pred: 1.0)
            rec.fail(f"eval-unknown:{key}", f"{bad} accepted")
        except exc:
            pass
    for bad in (np.nan, np.inf):
        try:
            m.evaluate_learners(metric=lambda y_true, y_pred: bad)
            rec.fail(f"eval-nonfinite:{key}", f"metric value {bad} accepted")
        except ValueError:
            pass
    try:
        m.evaluate_learners(metric="rmse")
        rec.fail(f"eval-metric:{key}", "a metric that is not callable was accepted")
    except TypeError:
        pass


def not_stored(rec, m, key, what):
    rec.expect(m.predictions is None and m.nuisance_targets is None, f"store:{key}", f"{what}: predictions are stored although switched off")
    try:
        m.evaluate_learners(metric=lambda y_true, y_pred: 1.0)
        rec.fail(f"eval-nostore:{key}", f"{what}: evaluated without stored predictions")
    except ValueError:
        pass


def cfg_case(case, rec):
    labels = SPL[case["spl"]]
    cfg = catalog(n_rep=len(labels))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=len(labels[0]))
    use = int_frame(df) if case["int"] else df
    smpls = [smpls_from_labels(df.block, l) for l in labels]
    opts = cfg.options(df)
    none = nonestimated(cfg)
    key = cfg.name + (":int" if case["int"] else "")
    base = None
    losses = None
    for sp, sm in itertools.product((True, False), repeat=2):
        CTL.reset(idmap(df))
        m = cfg.build(use, n_rep=len(labels), n_folds=max(labels[0]) + 1)
        m.set_sample_splitting(smpls)
        m.fit(store_predictions=sp, store_models=sm)
        rec.trace()
        rec.state(cfg.name, case["spl"], case["int"], sp, sm)
        r = results(m)
        what = f"store_predictions={sp}, store_models={sm}"
        if base is None:
            base, losses = r, m.nuisance_loss
            rec.outcome(cfg.name, np.round(m.coef, 9).tolist(), {k: np.round(v, 9).tolist() for k, v in losses.items()})
        rec.expect(all(close(base[k], r[k], rtol=1e-12, atol=1e-13) for k in base), f"storage-changes-estimates:{key}", f"{what}: {m.coef} {m.se}, expected {base['coef']} {base['se']}")
        rec.expect(set(losses) == set(m.nuisance_loss) and all(close(losses[k], m.nuisance_loss[k], rtol=1e-12) for k in losses), f"storage-changes-loss:{key}", what)
        if sp:
            CTL.log_on = False
            fits = {e["fit_id"]: e for e in CTL.events if e["kind"] == "fit"}
            rec.expect(set(m.predictions) == set(m.nuisance_targets) == set(m.nuisance_loss) == set(m.params_names), f"names:{key}", what)
            check_targets(rec, cfg, df, m, smpls, opts, key, skip=none, fits=fits)
            check_loss(rec, cfg, df, m, key)
            if sm:
                rec.expect(set(m.models) == set(m.params_names), f"names:{key}", f"models of {sorted(m.models)}")
                check_models(rec, cfg, df, m, smpls, opts, key, skip=none)
                check_eval(rec, cfg, m, key, case["spl"] == "2")
        else:
            not_stored(rec, m, key, what)
        if not sm:
            rec.expect(m.models is None, f"store-models:{key}", f"{what}: models are stored")
        elif not sp:
            rec.expect(all(len(m.models[nm][d][ir]) == len(smpls[ir]) for nm in cfg.roles if nm not in none for d in cfg.treats for ir in range(len(labels))), f"store-models:{key}", what)
    # a later fit on the same object with other options replaces what is stored
    m = cfg.build(use, n_rep=len(labels), n_folds=max(labels[0]) + 1)
    m.set_sample_splitting(smpls)
    for sp, sm in ((True, True), (False, False), (True, False), (False, True)):
        m.fit(store_predictions=sp, store_models=sm)
        rec.step()
        rec.expect((m.predictions is not None) == sp and (m.models is not None) == sm, f"store-refit:{key}", f"after refitting with store_predictions={sp}, store_models={sm}")
        rec.expect(all(close(base[k], v, rtol=1e-12, atol=1e-13) for k, v in results(m).items()), f"storage-changes-estimates:{key}", "refit")


def ext_case(case, rec):
    """supplied predictions: all subsets; the other functions stay consistent, the supplied values are what is stored"""
    labels = SPL["2"]
    cfg = catalog(n_rep=2)[case["cfg"]]
    df = cfg.frame(case["seed"])
    if case["hard"] and "biny" not in cfg.name:  # zero targets and predictions close to zero and one
        df["y"] = np.where(np.arange(len(df)) % 3 == 1, 0.0, df["y"])
    smpls = [smpls_from_labels(df.block, l) for l in labels]
    opts = cfg.options(df)
    none = nonestimated(cfg)
    CTL.reset(idmap(df), log=False)
    ref = cfg.build(df, n_rep=2)
    ref.set_sample_splitting(smpls)
    ref.fit()
    names = [r for r in cfg.roles]
    key = cfg.name + ":ext"
    for k in range(1, len(names) + 1):
        for sub in itertools.combinations(names, k):
            if cfg.name.startswith("LPQ") and k < len(names):
                continue
            ext = {d: {nm: ref.predictions[nm][:, :, it] * 0.9 + 0.03 for nm in sub} for it, d in enumerate(cfg.treats)}
            if case["hard"]:
                near = np.array([0.02, 0.5, 0.985, 0.3, 0.004, 0.7])[np.arange(len(df)) % 6]
                for d in ext:
                    for nm in sub:
                        if cfg.args[cfg.roles[nm].learner][0] == "c":
                            ext[d][nm] = np.column_stack([near, near[::-1]])
            m = cfg.build(df, n_rep=2)
            m.set_sample_splitting(smpls)
            CTL.reset(idmap(df))
            m.fit(external_predictions=ext, store_models=True)
            CTL.log_on = False
            rec.trace()
            rec.state(cfg.name, "ext", sub)
            fits = {e["fit_id"]: e for e in CTL.events if e["kind"] == "fit"}
            thr = opts.get("trimming_threshold", 1e-2)
            for it, d in enumerate(cfg.treats):
                for nm in sub:
                    got, want = m.predictions[nm][:, :, it], ext[d][nm]
                    rec.expect(close(got, want) or (cfg.roles[nm].clip and close(got, np.clip(want, thr, 1 - thr))), f"stored:{key}:{nm}", f"supplied {sub}: stored predictions of {nm} are not the supplied ones")
            skip = set(sub) | set(none)
            if cfg.name.startswith("PLR-iv") and "ml_g" in sub and "ml_l" not in sub:
                skip.add("ml_l")  # not needed and not fitted
                rec.expect(np.isnan(m.predictions["ml_l"]).all(), f"stored:{key}:ml_l", "predictions without a fit") if m.models["ml_l"]["d"][0] is None else skip.discard("ml_l")
            est = {r: v for r, v in cfg.roles.items() if r not in skip}
            check_targets(rec, cfg, df, m, smpls, opts, key, skip=skip, fits=fits)
            check_loss(rec, cfg, df, m, key)
            if est:
                check_models(rec, cfg, df, m, smpls, opts, key, skip=skip)


def comp_case(case, rec):
    """composites hand the storage options to every component; estimates do not depend on them"""
    import doubleml as dml
    from mc.catalog import make_df
    from mc.spy import clf, lin

    kind = case["comp"]
    df = make_df("lvl" if kind == "APOS" else ("iv" if kind == "LPQ" else "bin"), 4, 4, case["seed"])
    smpls = [smpls_from_labels(df.block, l) for l in SPL["2"]]
    data = dml.DoubleMLData(df, "y", "d", x_cols=["X1", "X2"], **({"z_cols": "z"} if kind == "LPQ" else {}))
    base = None
    for sp, sm in itertools.product((True, False), repeat=2):
        CTL.reset(log=False)
        if kind == "APOS":
            m = dml.DoubleMLAPOS(data, lin("ml_g"), clf("ml_m", 2.0), treatment_levels=[0, 1, 2], n_folds=2, draw_sample_splitting=False)
        else:
            m = dml.DoubleMLQTE(data, lin("ml_g") if kind == "CVaR" else clf("ml_g"), clf("ml_m", 2.0), quantiles=[0.4, 0.6], score=kind, n_folds=2,
                                draw_sample_splitting=False)
        m.set_sample_splitting(smpls)
        m.fit(store_predictions=sp, store_models=sm)
        rec.trace()
        rec.state(kind, sp, sm)
        comps = m.modellist if kind == "APOS" else m.modellist_0 + m.modellist_1
        r = (m.coef, m.se, m.all_coef, m.framework.scaled_psi)
        base = base or r
        rec.expect(all(close(a, b, rtol=1e-12) for a, b in zip(base, r)), f"storage-changes-estimates:{kind}", f"{sp} {sm}")
        for c in comps:
            rec.step()
            rec.expect((c.predictions is not None) == sp and (c.nuisance_targets is not None) == sp and (c.models is not None) == sm, f"store:{kind}", f"component with store_predictions={sp}, store_models={sm}")
            if sm and sp:
                for nm in ("ml_m",) if kind != "LPQ" else ("ml_m_z",):
                    for ir in range(2):
                        for k, (tr, te) in enumerate(smpls[ir]):
                            p = c.models[nm]["d"][ir][k].predict_proba(df[["X1", "X2"]].to_numpy()[te])[:, 1]
                            lo = 0.0 if kind == "LPQ" else 0.01
                            rec.expect(close(np.clip(p, lo, 1 - lo), c.predictions[nm][te, ir, 0], rtol=1e-9), f"models:{kind}:{nm}", "stored model does not give the stored predictions")


def cluster_case(case, rec):
    """clustered data: the same consistency with cluster splittings"""
    import doubleml as dml
    from mc.spy import clf, lin

    rng = np.random.RandomState(case["seed"] + 5)
    n1, n2 = 4, 4
    import pandas as pd

    c1, c2 = [a.ravel() for a in np.meshgrid(np.arange(n1), np.arange(n2), indexing="ij")]
    c1, c2 = np.tile(c1, 3), np.tile(c2, 3)
    n = len(c1)
    df = pd.DataFrame({"X1": np.linspace(-1, 1, n)[rng.permutation(n)], "X2": rng.randn(n), "c1": c1, "c2": c2})
    df["d"] = (np.arange(n) % 2).astype(float) if case["irm"] else df.X1 + rng.randn(n)
    df["y"] = df["d"] + df.X1 + rng.randn(n)
    cols = ["c1", "c2"][: case["ways"]]
    data = dml.DoubleMLClusterData(df, "y", "d", cluster_cols=cols if len(cols) > 1 else cols[0], x_cols=["X1", "X2"])
    base = None
    for sp, sm in itertools.product((True, False), repeat=2):
        CTL.reset(log=False)
        np.random.seed(3)
        if case["irm"]:
            m = dml.DoubleMLIRM(data, lin("ml_g"), clf("ml_m", 2.0), n_folds=2, n_rep=2)
            roles = {"ml_g0": (False, df.y.to_numpy(), df.d.to_numpy() == 0), "ml_g1": (False, df.y.to_numpy(), df.d.to_numpy() == 1), "ml_m": (True, df.d.to_numpy(), np.ones(n, bool))}
        else:
            m = dml.DoubleMLPLR(data, lin("ml_l"), lin("ml_m", 2.0), n_folds=2, n_rep=2)
            roles = {"ml_l": (False, df.y.to_numpy(), np.ones(n, bool)), "ml_m": (False, df.d.to_numpy(), np.ones(n, bool))}
        m.fit(store_predictions=sp, store_models=sm)
        rec.trace()
        rec.state("cluster", case["ways"], case["irm"], sp, sm)
        r = (m.coef, m.se, m.all_coef, m.all_se)
        base = base or r
        rec.expect(all(close(a, b, rtol=1e-12) for a, b in zip(base, r)), "storage-changes-estimates:cluster", f"{sp} {sm}")
        if not (sp and sm):
            continue
        X = df[["X1", "X2"]].to_numpy()
        for nm, (isclf, t, mask) in roles.items():
            for ir in range(2):
                rec.expect(close(m.nuisance_targets[nm][:, ir, 0], np.where(mask, t, np.nan)), f"targets:cluster:{nm}", "stored targets")
                for k, (tr, te) in enumerate(m.smpls[ir]):
                    rec.step()
                    mod = m.models[nm]["d"][ir][k]
                    p = np.clip(mod.predict_proba(X[te])[:, 1], 0.01, 0.99) if isclf else mod.predict(X[te])
                    rec.expect(close(p, m.predictions[nm][te, ir, 0], rtol=1e-9), f"models:cluster:{nm}", f"repetition {ir}, fold {k}")


def case_fn(case, rec):
    {"cfg": cfg_case, "ext": ext_case, "comp": comp_case, "cluster": cluster_case}[case["kind"]](case, rec)


def cases(tier, seed):
    thor = tier == "thorough"
    for s in [seed] if not thor else [seed + 13 * i for i in range(3)]:
        for nm, cfg in catalog().items():
            for spl in ("1", "2", "3", "u", "L", "T") if thor else ("2", "3", "L"):
                for i in (False, True) if spl not in ("L", "T") else (False,):
                    yield dict(kind="cfg", name=f"{nm}/{spl}/{i}", cfg=nm, spl=spl, int=i, seed=s)
            if cfg.ext and "call" not in nm:
                for hard in (False, True):
                    yield dict(kind="ext", name=f"ext/{nm}/{hard}", cfg=nm, hard=hard, seed=s)
        for c in ("APOS", "PQ", "LPQ", "CVaR"):
            yield dict(kind="comp", name=f"comp/{c}", comp=c, seed=s)
        for w in (1, 2):
            for irm in (False, True):
                yield dict(kind="cluster", name=f"cluster/{w}/{irm}", ways=w, irm=irm, seed=s)


if __name__ == "__main__":
    Check("C18", case_fn, cases, rule="every configuration x splitting x storage options x element types, every subset of supplied predictions, every subset of "
          "nuisance functions evaluated; each stored model of each function, treatment, repetition and fold is applied again",
          assumptions=["learners are deterministic"]).main()
