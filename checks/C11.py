"""C11 hyperparameters: (a) every subset of (nuisance function, treatment) units with unique parameters per unit / repetition /
fold is routed through a fit and every learner fit in the spy log is attributed; (b) all sequences of parameter operations to a
depth (valid, resetting, invalid, tuning, fitting) against a reference store; (c) tuning: spies whose validation score names an
enumerated winner per tuned unit (recognised by rows, targets and covariates), all winner assignments x modes."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np

from mc import observe as O
from mc.catalog import catalog, idmap, nonestimated, smpls_from_labels
from mc.core import Check, set_partitions
from mc.scorecases import ladder_labels
from mc.honesty import check_honesty, est_target_ok
from mc.spy import CTL, TuneClf, TuneReg

NONE = object()


# ------------------------------------------------------------------ (a) routing
def uniq(i, it, ir, k):
    return round(0.25 + 0.31 * i + 2.9 * it + 7.3 * ir + 0.057 * (k + 1), 6)


def expected_rows(cfg, df, nm, train):
    role = cfg.roles[nm]
    mask = role.mask(df) if role.mask is not None else np.ones(len(df), dtype=bool)
    return frozenset(int(i) for i in train if mask[i])


def attribute(rec, cfg, df, smpls, want, key):
    """every fit uses the parameter of a unit it can belong to; `want`(nm, it, ir, k) -> lam"""
    units = []
    fixed = set(nonestimated(cfg))
    for it in range(len(cfg.treats)):
        for ir, rep in enumerate(smpls):
            for k, (tr, _) in enumerate(rep):
                for nm, role in cfg.roles.items():
                    if nm not in fixed:
                        units.append((role.learner, want(nm, it, ir, k), expected_rows(cfg, df, nm, tr), role.nested or cfg.nested,
                                      (nm, it, ir, k)))
    for e in CTL.events:
        if e["kind"] != "fit":
            continue
        rec.step()
        rows = frozenset(e["rows"])
        ok = any(tag == e["tag"] and abs(lam - e["lam"]) < 1e-12 and (rows <= rs if nested else rows == rs)
                 for tag, lam, rs, nested, _ in units)
        if not ok:
            rec.fail(f"stray:{cfg.name}{key}", f"learner {e['tag']} was fitted with parameter {e['lam']} on {len(rows)} rows; no nuisance "
                     "function, treatment, repetition and fold with this parameter trains on them")
            return


def route_case(case, rec):
    reps = case["reps"]
    cfg = catalog(len(reps))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=len(reps[0]))
    smpls = [smpls_from_labels(df.block, r) for r in reps]
    proto = cfg.build(df, n_rep=len(reps))
    names = list(proto.params_names)
    pairs = [(nm, it) for nm in names for it in range(len(cfg.treats))]
    fixed = set(nonestimated(cfg))
    sizes = range(len(pairs) + 1) if case["all"] else (1, len(pairs) - 1)
    for sz in sizes:
        for S in itertools.combinations(pairs, sz):
            for mode in case["modes"]:
                m = cfg.build(df, n_rep=len(reps))
                m.set_sample_splitting(smpls)

                def want(nm, it, ir, k):
                    if (nm, it) not in S:
                        return cfg.args[cfg.roles[nm].learner][1] * 1.0
                    i = names.index(nm)
                    return uniq(i, it, 0, 0) if mode == "dict" else uniq(i, it, ir, k)

                for nm, it in S:
                    if mode == "dict":
                        p = {"lam": want_fixed(names, nm, it)} if nm in fixed else {"lam": want(nm, it, 0, 0)}
                    else:
                        p = [[{"lam": uniq(names.index(nm), it, ir, k)} for k in range(len(rep))] for ir, rep in enumerate(smpls)]
                    ret = m.set_ml_nuisance_params(nm, cfg.treats[it], p)
                    rec.expect(ret is m, f"ret:{cfg.name}", "set_ml_nuisance_params does not return the model")
                CTL.reset(idmap(df))
                m.fit()
                rec.state(cfg.name, reps, S, mode)
                rec.trace()
                rec.outcome(cfg.name, np.round(m.coef, 9).tolist())
                key = f":{mode}"
                if not check_honesty(rec, cfg, df, m, smpls, skip=fixed, exact_lam=want, key=key):
                    return
                attribute(rec, cfg, df, smpls, want, key)
                if rec.fails:
                    return


def want_fixed(names, nm, it):
    return uniq(names.index(nm), it, 0, 0)


# ------------------------------------------------------------------ (b) sequences
def seq_ops(cfg, names, n_rep, n_folds):
    """operations on two nuisance functions (and the last treatment), each with its effect on the reference store"""
    a, b = names[0], names[-1]
    d0, d1 = cfg.treats[0], cfg.treats[-1]

    def nested(base):
        return [[{"lam": base + 0.3 * r + 0.07 * k} for k in range(n_folds)] for r in range(n_rep)]

    ops = {
        "a=dict": lambda m: m.set_ml_nuisance_params(a, d0, {"lam": 0.9}),
        "a=nest": lambda m: m.set_ml_nuisance_params(a, d0, nested(1.7)),
        "a=none": lambda m: m.set_ml_nuisance_params(a, d0, None),
        "b=dict": lambda m: m.set_ml_nuisance_params(b, d1, {"lam": 2.9}),
        "b=nest": lambda m: m.set_ml_nuisance_params(b, d1, nested(3.3)),
        "bad-name": lambda m: m.set_ml_nuisance_params("ml_zzz", d0, {"lam": 5.0}),
        "bad-treat": lambda m: m.set_ml_nuisance_params(a, "nope", {"lam": 5.0}),
        "bad-reps": lambda m: m.set_ml_nuisance_params(a, d0, nested(5.0) + nested(5.0)[:1]),
        "bad-folds": lambda m: m.set_ml_nuisance_params(b, d1, [r + r[:1] for r in nested(5.0)]),
        "bad-tune": lambda m: m.tune({"ml_zzz": {"lam": [1.0]}}),
        "tune-off": lambda m: m.tune(grids(cfg), set_as_params=False, n_folds_tune=2),
        "fit": lambda m: m.fit(),
    }

    def full(p):
        return [[p] * n_folds] * n_rep

    eff = {
        "a=dict": ((a, d0), full({"lam": 0.9})), "a=nest": ((a, d0), nested(1.7)), "a=none": ((a, d0), None),
        "b=dict": ((b, d1), full({"lam": 2.9})), "b=nest": ((b, d1), nested(3.3)),
    }
    return ops, eff


def gkey(cfg, nm):
    """name under which the grid and the scorer of a nuisance function are passed"""
    return nm if cfg.name.startswith("LPQ") else cfg.roles[nm].learner


def gkeys(cfg):
    return list(dict.fromkeys(gkey(cfg, nm) for nm in cfg.roles)) if cfg.name.startswith("LPQ") else list(cfg.args)


def grids(cfg):
    return {l: {"lam": [0.5, 1.5]} for l in gkeys(cfg)}


def store_of(m, names, treats, n_rep, n_folds):
    out = {}
    for nm in names:
        p = m.get_params(nm)
        for d in treats:
            v = p[d]
            out[nm, d] = None if v is None or all(x is None for x in v) else [[x if x is None else dict(x) for x in r] for r in v]
    return out


def seq_case(case, rec):
    reps = case["reps"]
    cfg = catalog(len(reps))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=4)
    smpls = [smpls_from_labels(df.block, r) for r in reps]
    n_rep, n_folds = len(reps), max(reps[0]) + 1
    names = list(cfg.build(df, n_rep=n_rep).params_names)
    ops, eff = seq_ops(cfg, names, n_rep, n_folds)
    first = case["first"]
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        seq = (first,) + rest
        m = cfg.build(df, n_rep=n_rep)
        m.set_sample_splitting(smpls)
        CTL.reset(idmap(df))
        CTL.tune = lambda est, X, y: 0.0
        ref = {(nm, d): None for nm in names for d in cfg.treats}
        for op in seq:
            n0 = CTL.n_calls
            try:
                ops[op](m)
                rec.expect(not op.startswith("bad"), f"accepted:{cfg.name}:{op}", f"{seq}: {op} has been accepted")
            except Exception as e:
                if not op.startswith("bad"):
                    raise
                rec.expect(CTL.n_calls == n0, f"late:{cfg.name}:{op}", f"{op} rejected after learners have been used ({type(e).__name__})")
            if op in eff:
                ref[eff[op][0]] = eff[op][1]
            rec.step()
            got = store_of(m, names, cfg.treats, n_rep, n_folds)
            if got != ref:
                bad = [k for k in ref if got.get(k) != ref[k]]
                rec.fail(f"store:{cfg.name}:{op}", f"after {seq}: parameters of {bad} are {[got.get(k) for k in bad]}, expected "
                         f"{[ref[k] for k in bad]}")
                return
        rec.state(cfg.name, reps, seq)
        rec.trace()
        CTL.reset(idmap(df))
        m.fit()

        def want(nm, it, ir, k):
            v = ref[nm, cfg.treats[it]]
            return cfg.args[cfg.roles[nm].learner][1] * 1.0 if v is None else v[ir][k]["lam"]

        fixed = set(nonestimated(cfg))
        if not check_honesty(rec, cfg, df, m, smpls, skip=fixed, exact_lam=want, key=":seq"):
            return
        attribute(rec, cfg, df, smpls, want, ":seq")
        if rec.fails:
            return
    rec.outcome(cfg.name, reps, first)


# ------------------------------------------------------------------ (c) tuning
def ysig(rows, y):
    return round(float(sum((r + 1) * v for r, v in zip(rows, y))), 5)


def xsig(X):
    return (X.shape[1], round(float(np.sum(X)), 5))


def tune_units(cfg, df, smpls, on_folds, use_other=True):
    """(nm, it, ir, k) -> key of the rows, targets and covariates the unit must be tuned on"""
    fixed = set(nonestimated(cfg))
    n = len(df)
    reps = smpls if on_folds else [[(np.arange(n), np.arange(n))]]
    units = {}
    for it, d in enumerate(cfg.treats):
        for ir, rep in enumerate(reps):
            for k, (tr, _) in enumerate(rep):
                for nm, role in cfg.roles.items():
                    if nm in fixed:
                        continue
                    rows = sorted(expected_rows(cfg, df, nm, tr))
                    X = df[cfg.x_for(df, nm, d, use_other=use_other)].to_numpy(dtype=float)[rows]
                    ys = ysig(rows, role.target(df, d)[rows]) if role.target is not None else None
                    units[nm, it, ir, k] = (role.learner, frozenset(rows), xsig(X), ys)
    return units


def make_grid(cfg, G):
    return {l: {"lam": [round(0.4 + 0.37 * g + 0.11 * i, 6) for g in range(G)]} for i, l in enumerate(gkeys(cfg))}


def tune_case(case, rec):
    reps = case["reps"]
    cfg = catalog(len(reps))[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=case.get("blocks", 4))
    smpls = [smpls_from_labels(df.block, r) for r in reps]
    opts = cfg.options(df)
    n_rep, G = len(reps), case["G"]
    learners = {a: (TuneReg if typ == "r" else TuneClf)(tag=a, lam=1.0 * l) for a, (typ, l) in cfg.args.items()}
    fixed = set(nonestimated(cfg))
    on_folds = case["on_folds"]
    units = tune_units(cfg, df, smpls, on_folds)
    keys, gof = {}, {}
    for u, key in units.items():
        keys.setdefault(key, len(keys))
        gof[key] = gkey(cfg, u[0])
    grid = make_grid(cfg, G)
    ids = idmap(df)
    for shift in range(G):
        m = cfg.build(df, n_rep=n_rep, learners={a: l for a, l in learners.items()})
        m.set_sample_splitting(smpls)
        names = list(m.params_names)
        pre = {"lam": 9.5}
        m.set_ml_nuisance_params(names[0], cfg.treats[0], pre)
        CTL.reset(ids)
        bad, seen = [], {}

        def judge(est, X, y, learner=None):
            Xf, yf = est.seen_
            rows = CTL.rows(Xf) + CTL.rows(X)
            if len(set(rows)) != len(rows):
                bad.append(("overlap", est.tag))
                return 0.0
            ys = ysig(rows, np.concatenate((yf, np.asarray(y, dtype=float).ravel())))
            xs = xsig(np.vstack((Xf, np.asarray(X, dtype=float))))
            for key in ((est.tag, frozenset(rows), xs, ys), (est.tag, frozenset(rows), xs, None)):
                if key in keys:
                    break
            else:
                bad.append(("unit", est.tag, sorted(rows)))
                return 0.0
            if key[3] is None and cfg.name.startswith(("PQ", "LPQ", "CVaR")):
                t = np.concatenate((yf, np.asarray(y, dtype=float).ravel()))
                if not est_target_ok(cfg, None, df, "d", np.array(rows, dtype=int), t, None, opts):
                    bad.append(("target", est.tag, t.tolist()))
                    return 0.0
            gl = grid[gof[key]]["lam"]
            if learner != scored.get(gof[key]):
                bad.append(("scorer", est.tag, learner))
            if round(est.lam, 6) not in gl:
                bad.append(("grid", est.tag, est.lam))
            seen.setdefault(key, set()).add(round(est.lam, 6))
            win = gl[(keys[key] + shift) % G]
            return -abs(est.lam - win)

        CTL.tune = judge
        kw = {}
        if case["scoring"] == "dict":
            kw["scoring_methods"] = {l: (lambda est, X, y, l=l: judge(est, X, y, learner=l)) for l in gkeys(cfg)}
        elif case["scoring"] == "partial":
            l0 = gkeys(cfg)[-1]
            kw["scoring_methods"] = {l0: (lambda est, X, y, l=l0: judge(est, X, y, learner=l))}
        scored = {l: l for l in kw.get("scoring_methods", {})}
        if case["search"] == "randomized_search":
            kw.update(search_mode="randomized_search", n_iter_randomized_search=G)
        np.random.seed(case["seed"] + shift)
        keep = O.snap(grid)
        res = m.tune(grid, tune_on_folds=on_folds, n_folds_tune=case["inner"], set_as_params=case["set"], return_tune_res=case["ret"],
                     **kw)
        what = f"{cfg.name} {case}"
        rec.state(cfg.name, reps, on_folds, case["scoring"], case["search"], case["set"], shift)
        rec.trace()
        if bad:
            return rec.fail(f"tuned-on:{cfg.name}:{bad[0][0]}", f"{what}: {bad[0]}: a candidate was judged on rows, targets or covariates "
                            "of no nuisance function, or with the wrong scorer or grid")
        for u, key in units.items():
            if seen.get(key) != set(grid[gof[key]]["lam"]):
                return rec.fail(f"candidates:{cfg.name}:{u[0]}", f"{what}: unit {u}: candidates {seen.get(key)} tried")
        rec.expect(O.snap(grid) == keep or not O.diff(O.snap(grid), keep), f"grid-modified:{cfg.name}", "param_grids modified")

        def winner(nm, it, ir, k):
            key = units[(nm, it, ir, k)] if on_folds else units[(nm, it, 0, 0)]
            return grid[gof[key]]["lam"][(keys[key] + shift) % G]

        # --- returned object
        if case["ret"]:
            if len(res) != len(cfg.treats):
                return rec.fail(f"res-len:{cfg.name}", f"{what}: {len(res)} results for {len(cfg.treats)} treatments")
            for it in range(len(cfg.treats)):
                lst = res[it] if on_folds else [res[it]]
                if on_folds and len(lst) != n_rep:
                    return rec.fail(f"res-len:{cfg.name}", f"{what}: {len(lst)} results for {n_rep} repetitions")
                for ir, r in enumerate(lst):
                    nf = len(smpls[ir]) if on_folds else 1
                    for nm in names:
                        got = r["params"][nm]
                        exp = [None] * nf if nm in fixed else [{"lam": winner(nm, it, ir, k)} for k in range(nf)]
                        rec.step()
                        if [g if g is None else {"lam": round(g["lam"], 6)} for g in got] != exp:
                            return rec.fail(f"res-params:{cfg.name}:{nm}", f"{what}: returned {got}, the best candidates are {exp}")
                    srch = sorted(x for t in r["tune_res"].values() if t is not None for x in flat_search(t))
                    exp = sorted((cfg.roles[nm].learner, winner(nm, it, ir, k)) for nm in names if nm not in fixed for k in range(nf))
                    if srch != exp:
                        return rec.fail(f"res-tune:{cfg.name}", f"{what}: searches returned {srch}, expected {exp}")
        else:
            rec.expect(res is m, f"ret:{cfg.name}", f"{what}: tune does not return the model")
        # --- stored parameters
        got = store_of(m, names, cfg.treats, n_rep, None)
        for nm in names:
            for it, d in enumerate(cfg.treats):
                if case["set"]:
                    exp = None if nm in fixed else [[{"lam": winner(nm, it, ir, k)} for k in range(len(rep))] for ir, rep in enumerate(smpls)]
                    if nm in fixed and not on_folds:
                        exp = None
                else:
                    exp = [[pre for _ in rep] for rep in smpls] if (nm, it) == (names[0], 0) else None
                g = got[nm, d]
                if nm in fixed and case["set"] and (g is None or all(x is None or x == {} for r in g for x in r)):
                    continue
                rec.step()
                if g != exp:
                    return rec.fail(f"stored:{cfg.name}:{nm}", f"{what}: parameters of {nm} ({d}) are {g}, expected {exp}")
        # --- the next fit uses them
        CTL.reset(ids)
        m.fit()

        def want(nm, it, ir, k):
            if case["set"]:
                return winner(nm, it, ir, k)
            return 9.5 if (nm, it) == (names[0], 0) else 1.0 * cfg.args[cfg.roles[nm].learner][1]

        if not check_honesty(rec, cfg, df, m, smpls, skip=fixed, exact_lam=want, key=":tuned"):
            return
        attribute(rec, cfg, df, smpls, want, ":tuned")
        if rec.fails:
            return
        rec.outcome(cfg.name, np.round(m.coef, 9).tolist())


def flat_search(t):
    if isinstance(t, dict):
        return [x for v in t.values() for x in flat_search(v)]
    return [(s.best_estimator_.tag, round(s.best_params_["lam"], 6)) for s in t]


def theta_case(case, rec):
    """tuning of the learner whose target is y - theta*d: the target has this form and does not depend on the dtype of y and d"""
    cfg = catalog(1)[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=4)
    df["y"] = np.round(3 * df["y"])
    df["d"] = np.round(3 * df["d"])
    if "zc" in df:
        df["zc"] = np.round(3 * df["zc"])
    smpls = [smpls_from_labels(df.block, case["part"])]
    n = len(df)
    out = {}
    for dt in ("float", "int", "inty", "intd"):
        f = df.copy()
        for c in [c for c in ("y", "d", "zc") if dt == "int" or dt == "int" + c]:
            f[c] = f[c].astype(int)
        learners = {a: TuneReg(tag=a, lam=1.0 * l) for a, (typ, l) in cfg.args.items()}
        m = cfg.build(f, learners=learners)
        m.set_sample_splitting(smpls)
        CTL.reset(idmap(f))
        CTL.tune = lambda est, X, y: -abs(est.lam - grids(cfg)[est.tag]["lam"][0])
        np.random.seed(3)
        m.tune(grids(cfg), tune_on_folds=case["on_folds"], n_folds_tune=2)
        ev = [e for e in CTL.events if e["kind"] == "fit" and e["tag"] == "ml_g"]
        sets = [set(map(int, tr)) for tr, _ in smpls[0]] if case["on_folds"] else [set(range(n))]
        th = []
        for s in sets:
            e = [x for x in ev if set(x["rows"]) == s]
            if not e:
                return rec.fail(f"g-rows:{cfg.name}", "no final fit of ml_g on the tuned rows")
            r = np.array(e[-1]["rows"])
            y, d = df["y"].to_numpy(dtype=float)[r], df["d"].to_numpy(dtype=float)[r]
            t = float(np.dot(d, y - e[-1]["y"]) / np.dot(d, d))
            rec.expect(np.allclose(y - t * d, e[-1]["y"], rtol=1e-7, atol=1e-7), f"g-target:{cfg.name}",
                       "target of ml_g during tuning is not y - theta*d")
            th.append(t)
        out[dt] = th
        if not case["on_folds"]:  # theta is the partialling-out estimate from the tuned models' predictions
            X = df[cfg.x_for(df, "ml_l", "d")].to_numpy(dtype=float)
            y, d = (df[c].to_numpy(dtype=float) for c in ("y", "d"))
            z = df["zc"].to_numpy(dtype=float) if "ml_r" in cfg.roles else d
            lm = 0.5
            ph = {c: TuneReg(tag="ref", lam=lm).fit(X, v).predict(X) for c, v in (("y", y), ("d", d), ("z", z))}
            ref = np.mean((z - ph["z"]) * (y - ph["y"])) / np.mean((z - ph["z"]) * (d - ph["d"]))
            rec.expect(np.allclose(th, ref, rtol=1e-6), f"g-theta:{cfg.name}", f"{dt}: preliminary effect {th}, partialling out gives {ref}")
        rec.state(cfg.name, case["part"], dt, case["on_folds"])
        rec.trace()
    rec.outcome(cfg.name, case["part"], np.round(out["float"], 8).tolist())
    for dt, th in out.items():
        rec.step()
        rec.expect(np.allclose(th, out["float"], rtol=1e-7, atol=1e-9), f"g-dtype:{cfg.name}",
                   f"preliminary effect used for tuning ml_g is {th} with {dt} columns and {out['float']} with float columns")


def iters_case(case, rec):
    """randomized search: as many distinct candidates are tried per tuned unit as requested, on as many inner folds as requested"""
    reps, on_folds, niter, inner = [[0, 1, 1, 0], [0, 0, 1, 1]], case["on_folds"], case["niter"], case["inner"]
    cfg = catalog(2)[case["cfg"]]
    df = cfg.frame(case["seed"], blocks=4)
    smpls = [smpls_from_labels(df.block, r) for r in reps]
    learners = {a: (TuneReg if typ == "r" else TuneClf)(tag=a, lam=1.0 * l) for a, (typ, l) in cfg.args.items()}
    m = cfg.build(df, n_rep=2, learners=learners)
    m.set_sample_splitting(smpls)
    CTL.reset(idmap(df))
    seen = {}

    def judge(est, X, y):
        rows = CTL.rows(est.seen_[0]) + CTL.rows(X)
        u = seen.setdefault((est.tag, frozenset(rows), xsig(np.vstack((est.seen_[0], np.asarray(X, dtype=float))))), {})
        u.setdefault(round(est.lam, 6), []).append(frozenset(CTL.rows(X)))
        return -abs(est.lam - 3.3)

    CTL.tune = judge
    kw = {} if niter is None else {"n_iter_randomized_search": niter}
    grid = {l: {"lam": [round(0.2 + 0.1 * g, 6) for g in range(110)]} for l in gkeys(cfg)}
    np.random.seed(case["seed"])
    m.tune(grid, search_mode="randomized_search", tune_on_folds=on_folds, n_folds_tune=inner, **kw)
    want = 100 if niter is None else niter
    rec.state(cfg.name, "iters", on_folds, niter, inner)
    rec.trace()
    rec.expect(len(seen) > 0, f"iters:{cfg.name}", "no candidate was tried")
    for u, c in seen.items():
        rec.step()
        if len(c) != want:
            return rec.fail(f"iters:{cfg.name}", f"{u[0]}: {len(c)} candidates tried, requested {want} (tune_on_folds={on_folds})")
        for lam, tests in c.items():
            units = len(tests) // inner
            if len(tests) % inner or sum(len(t) for t in tests) != units * len(u[1]) or frozenset().union(*tests) != u[1]:
                return rec.fail(f"inner-folds:{cfg.name}", f"{u[0]}: candidate {lam} was judged on {len(tests)} parts, requested {inner} inner folds")


def case_fn(case, rec):
    {"route": route_case, "seq": seq_case, "tune": tune_case, "theta": theta_case, "iters": iters_case}[case["kind"]](case, rec)


def cases(tier, seed):
    th = tier == "thorough"
    parts2 = [list(p) for p in set_partitions(4, 2, 2)]
    parts3 = [list(p) for p in set_partitions(4, 3, 3)]
    cat = catalog()
    L = []
    for nm, cfg in cat.items():
        for reps in ([[0, 1, 0, 1]], [[0, 1, 2, 0]], [[0, 1, 1, 0], [0, 0, 1, 1]]) + (([[0, 1, 1, 2], [0, 1, 2, 2]],) if th else ()):
            L.append(dict(kind="route", cfg=nm, reps=reps, all=th or len(reps) > 1, modes=["dict", "nested"], seed=seed))
        L.append(dict(kind="route", cfg=nm, reps=ladder_labels(5, 5, 4), all=th, modes=["dict", "nested"], seed=seed))
    seqs = ["PLR-iv-2d", "PLIV-2z", "IRM-ate", "LPQ-1", "DIDCS-obs"]
    for nm in seqs:
        for reps in ([[0, 1, 0, 1]], [[0, 1, 1, 0], [0, 0, 1, 1]]):
            for first in ("a=dict", "a=nest", "a=none", "b=dict", "b=nest", "bad-name", "bad-treat", "bad-reps", "bad-folds", "bad-tune",
                          "tune-off", "fit"):
                if len(reps) == 2 or th or nm in ("IRM-ate", "PLR-iv-2d"):
                    L.append(dict(kind="seq", cfg=nm, reps=reps, first=first, depth=3 if th else 2, seed=seed))
    for first in ("a=dict", "a=nest", "a=none", "b=dict", "b=nest", "bad-name", "bad-treat", "bad-reps", "bad-folds", "bad-tune",
                  "tune-off", "fit"):
        L.append(dict(kind="seq", cfg="IRM-ate", reps=[[0, 1, 1, 0], [0, 0, 1, 1]], first=first, depth=4 if th else 3, seed=seed))
    modes = [dict(scoring=s, search=r, set=st, ret=rt) for s in ("none", "dict", "partial") for r in ("grid_search", "randomized_search")
             for st in (True, False) for rt in (True, False)]
    quick_modes = [dict(scoring="none", search="grid_search", set=True, ret=False), dict(scoring="dict", search="randomized_search", set=True,
                   ret=True), dict(scoring="partial", search="grid_search", set=False, ret=True)]
    for nm, cfg in cat.items():
        if not cfg.tune:
            continue
        sets = [[p] for p in (parts2 + parts3 if th else [parts2[2], parts3[1]])] + [[[0, 1, 1, 0], [0, 0, 1, 1]]]
        for j, reps in enumerate(sets):
            for md in modes if th and j < 2 else (quick_modes if len(reps) > 1 else quick_modes[j % 2: j % 2 + 1]):
                for on in (True, False):
                    L.append(dict(kind="tune", cfg=nm, reps=reps, on_folds=on, G=3, inner=2 if j % 2 else 3, seed=seed, **md))
    for nm in ("PLR-iv", "PLIV-iv", "PLR-call"):
        for p in parts2 + parts3 if th else parts2[1:4] + parts3[1:3]:
            for on in (True, False):
                L.append(dict(kind="theta", cfg=nm, part=p, on_folds=on, seed=seed))
    for nm in ("PLR-po", "IRM-ate", "PLIV-2z", "IIVM", "APO-1", "DIDCS-obs", "PQ-1", "SSM-mar"):
        for k, R in ((5, 1), (6, 3)) if th or nm in ("PLR-po", "IRM-ate") else ((5, 1),):
            if nm in cat and cat[nm].tune:
                L.append(dict(kind="tune", cfg=nm, reps=ladder_labels(k, k, R), blocks=k, on_folds=True, G=3, inner=2, seed=seed, **quick_modes[1]))
    for nm in ("PLR-po", "IRM-ate", "PLIV-po", "DID-obs"):
        for on in (True, False):
            for niter, inner in ((3, 2), (13, 3), (None, 2)):
                L.append(dict(kind="iters", cfg=nm, on_folds=on, niter=niter, inner=inner, seed=seed))
    for c in L:
        c["name"] = c["cfg"]
    return L


if __name__ == "__main__":
    Check("C11", case_fn, cases, rule="all subsets of (nuisance function, treatment) units x {one dict, nested per repetition and fold} x "
          "splittings; all sequences of parameter operations (set, reset, invalid, tuning, fit) to depth 2-3 (thorough 3-4); tuning: all "
          "cyclic assignments of winning candidates to tuned units x {whole sample, folds} x scoring x search x storing x returning modes",
          assumptions=["the candidate scores are those reported by the learner or scorer; ties and failing candidates are scikit-learn's "
                       "matter", "a new sample splitting resets the parameters (documented shape: repetitions x folds)"]).main()
